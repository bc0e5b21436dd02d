"""Small expression language for the reference relations the reports are compared with."""
from .common import *

FN = {"sin", "cos", "tan", "arctan", "arcsin", "arccos", "sqrt", "abs"}


class E:
    """an expression over abstract numbers"""

    def __init__(self, n):
        self.n = n

    def _w(o):
        return o if isinstance(o, E) else E(D.num_const(o))

    def __add__(a, b): return E(D.n_add(a.n, E._w(b).n))
    def __radd__(a, b): return E(D.n_add(E._w(b).n, a.n))
    def __sub__(a, b): return E(D.n_sub(a.n, E._w(b).n))
    def __rsub__(a, b): return E(D.n_sub(E._w(b).n, a.n))
    def __mul__(a, b): return E(D.n_mul(a.n, E._w(b).n))
    def __rmul__(a, b): return E(D.n_mul(E._w(b).n, a.n))
    def __truediv__(a, b): return E(D.n_div(a.n, E._w(b).n))
    def __rtruediv__(a, b): return E(D.n_div(E._w(b).n, a.n))
    def __neg__(a): return E(D.n_neg(a.n))
    def __matmul__(a, b): return E(D.n_matmul(a.n, b.n))

    @property
    def term(self):
        return self.n.term


def f(name):
    return lambda x: E(D.n_fn(name, x.n))


sin, cos, tan, arctan, arcsin, arccos, sqrt, abs_ = [f(n) for n in ("sin", "cos", "tan", "arctan", "arcsin", "arccos", "sqrt", "abs")]
PI = 3.141592653589793


def s(label):
    """the input with this label"""
    key = ("in", label)
    return E(Num(None, (), None, frozenset([label]), None, "S", T.ZERO, D.N1, T.scalar(key)))


def v(label):
    return E(point(label).n)


def m(label):
    return E(orient(label).n)


def e(i):
    return E(Num(None, (3,), None, D.NODEPS, 0, "S", T.ZERO, D.N1, T.E3[i]))


def same(rep, rule, construct, got, want, what=None):
    """compare a value of the program with a reference expression for all inputs"""
    t = nterm(got) if not isinstance(got, E) else got.term
    w = want.term if isinstance(want, E) else nterm(want)
    if t is None or w is None:
        rep.unk("%s: %s" % (rule, construct))
        return None
    r = rint.eq(t, w)
    rep.check(r, rule, construct, "is %s, expected %s%s" % (T.show(t)[:220], T.show(w)[:220], " (%s)" % what if what else ""), what)
    return r


def eff(cls, opts, pre=""):
    """reference values of the transverse parameters of a gear of a class (module 1 units where the recipe uses them)"""
    P = lambda n: s(pre + n)
    cyc = cls == "CycloidGear"
    hel = cls in ("HelicalGear", "HelicalRingGear")
    c = E(D.num_const(0)) if not is_cone(cls, opts) else P("cone_angle")
    b = P("helix_angle") if cls not in ("SpurGear", "SpurRingGear") else E(D.num_const(0))
    k = cos(b) if hel else E(D.num_const(1))
    N = P("number_of_teeth")
    d = dict(N=N, gamma=c / 2, beta=b, m=P("module") / k, rp=N / 2, H=P("height"), anchor=P("z_anchor"),
             add=P("addendum_coefficient") * k, ded=P("dedendum_coefficient") * k, backlash=P("backlash"), crowning=P("crowning"),
             tip=P("tip_fillet"), root=P("root_fillet"), trunc=P("tip_truncation"),
             center=v(pre + "center"), o=m(pre + "orientation"), angle=P("angle"))
    if not cyc:
        d["shift"] = P("profile_shift") * k
        d["alpha"] = arctan(tan(P("pressure_angle")) / cos(b)) if hel else P("pressure_angle")
    else:
        d["shift"] = E(D.num_const(0))
        d["alpha"] = None
    return d


def inside(cls, opts):
    return bool(cls in ("SpurRingGear", "HelicalRingGear") or opts.get("inside_teeth"))
