"""Abstract inputs and scenario helpers shared by the checks."""
from . import terms as T
from . import domains as D
from . import models as M
from .domains import Num
from .values import *
from .interp import Interp, PathDead, Budget

LEN = dict(dim=1)
KINDS = {
    # name: (dim, sign, isint)
    "number_of_teeth": (0, "+", True),
    "height": (1, "+", False),
    "module": (1, "+", False),
    "addendum_coefficient": (0, "+", False),
    "dedendum_coefficient": (0, "+", False),
    "outside_ring_coefficient": (0, "+", False),
    "inside_cycloid_coefficient": (0, "+", False),
    "outside_cycloid_coefficient": (0, "+", False),
}
BOOLS = ("enable_undercut", "inside_teeth", "herringbone")


def scalar(label, dim=0, sign=None, isint=False, rot="S", ang=None):
    if ang is None:
        ang = 1.0 if "angle" in label else D.N1
    key = ("in", label)
    t = T.scalar(key)
    a = T.atom(key)
    if sign == "+":
        M.POS.add(a)
        M.NONZ.add(a)
    elif sign == "!":
        M.NONZ.add(a)
    return Num(None, (), None, frozenset([label]), dim, rot, T.ZERO, ang, t, isint)


def point(label, dim=1, rot="V", wt=T.ONE):
    key = ("in", label)
    return Arr(Num(None, (3,), None, frozenset([label]), dim, rot, wt, D.N1, T.tensor(key)))


def orient(label):
    key = ("in", label)
    t = T.tensor(key)
    T.mark_orth(t)
    return Arr(Num(None, (3, 3), None, frozenset([label]), 0, "F", T.ZERO, D.N1, t))


class Ctx:
    """one abstract program run: a freshly interpreted copy of the library plus helpers"""

    def __init__(self, repo="/repo", budget=40_000_000):
        self.I = Interp(repo, budget)
        self.repo = repo

    def mod(self, name):
        m = self.I.module("gggears." + name)
        if m is None:
            raise Anchor("module gggears.%s" % name)
        return m

    def cls(self, name, mod=None):
        return self.name(name, mod)

    def name(self, name, mod=None):
        for mn in ([mod] if mod else ["gggears_wrapper", "gggears_core", "gggears_base_classes", "curve", "gearteeth",
                                       "gearmath", "gggears_build123d", "gggears_convert", "function_generators", "defs"]):
            m = self.I.module("gggears." + mn)
            if m is not None and name in m.d:
                return m.d[name]
        raise Anchor("public name %s" % name)

    def get(self, o, path):
        for p in path.split("."):
            o = self.I.getattr(o, p)
        return o

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), dict(kw))

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), dict(kw))

    def guard(self, thunk):
        """run a thunk; (alive, value)"""
        try:
            return True, thunk()
        except PathDead:
            return False, None

    def sig(self, cls):
        """constructor parameter names of a class"""
        init, _ = cls.lookup("__init__")
        if init is None:
            raise Anchor("constructor of %s" % cls.name)
        a = init.node.args
        return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]

    # -------------------------------------------------------------- gears
    def params(self, cls, pre="", cone=None, helix=None, **over):
        """abstract arguments for every constructor parameter"""
        out = {}
        for p in self.sig(cls):
            lab = pre + p
            if p in over:
                out[p] = over[p]
                continue
            if p in BOOLS:
                continue
            if p in ("center", "position"):
                out[p] = point(lab)
            elif p == "orientation":
                out[p] = orient(lab)
            elif p == "cone_angle":
                out[p] = D.num_const(0) if cone == 0 else scalar(lab, 0, "+")
            elif p in KINDS:
                d, s, i = KINDS[p]
                out[p] = scalar(lab, d, s, i)
            else:
                out[p] = scalar(lab)
                if p in ("helix_angle", "beta_angle"):
                    # |helix| < 90 degrees
                    for (w, m), c in D.n_fn("cos", out[p]).term:
                        for a, e in m:
                            M.POS.add(a)
                            M.NONZ.add(a)
        return out

    def gear(self, name, pre="", placed=True, **kw):
        c = self.cls(name)
        args = self.params(c, pre, **kw)
        g = self.I.call(c, [], args)
        if placed:
            self.place(g, pre)
        return g

    def place(self, g, pre=""):
        """arbitrary rigid placement"""
        I = self.I
        core = g.d.get("gearcore")
        if isinstance(core, Instance):
            tr = I.getattr(core, "transform")
        else:
            tr = g.d.get("transform")
        if tr is not None:
            I.setattr(tr, "center", point(pre + "center"))
            I.setattr(tr, "orientation", orient(pre + "orientation"))
            I.setattr(tr, "angle", scalar(pre + "angle"))
        return g


class Anchor(Exception):
    """a public name the property is about no longer exists"""


def T_(b):
    return D.num_const(bool(b))


# ------------------------------------------------------------------ profiles
def synth_profile(X, tag="", deps=frozenset(), transform=None, extended=False, chain=True, trim=False):
    """a tooth profile in local (module 1) coordinates whose segments carry one label per role"""
    def sc(n, sign=None):
        s = scalar(tag + n, 0, sign)
        return s.with_(deps=s.deps | deps)

    def vec(n):
        return Arr(Num(None, (3,), None, frozenset([tag + n]) | deps, 0, "S", T.ZERO, D.N1, T.tensor(("in", tag + n))))

    arc = X.name("ArcCurve", "curve")
    line = X.name("LineCurve", "curve")
    inv = X.name("InvoluteCurve", "curve")
    cc = X.name("CurveChain", "curve")

    def mkarc(r):
        return X.call(arc, radius=sc(r, "+"), center=vec(r), angle=sc(r + ":angle"), yaw=sc(r + ":yaw"))

    def mkline(r):
        return X.call(line, p0=vec(r + ":p0"), p1=vec(r + ":p1"))

    tooth = X.call(inv, r=sc("tooth", "+"), angle=sc("tooth:angle"))
    if chain:
        tooth = X.call(cc, mkline("tooth:low"), tooth)
    mirror = X.call(X.name("MirroredCurve", "curve"), tooth, plane_normal=X.name("UP", "defs"))
    X.meth(mirror, "reverse")
    kw = dict(ra_curve=mkarc("ra"), rd_curve=mkarc("rd"), ro_curve=mkarc("ro"), tooth_curve=tooth,
              tooth_curve_mirror=mirror, pitch_angle=sc("pitch", "+"),
              transform=transform if transform is not None else X.call(X.name("GearTransform")))
    if not extended:
        return X.call(X.name("GearRefProfile", "gggears_core"), **kw)
    for n in ("ro_connector_0", "ro_connector_1", "ro_connector_2", "tooth_centerline"):
        kw[n] = mkline(n)
    for n in ("rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum"):
        kw[n] = mkarc(n)
    return X.call(X.name("GearRefProfileExtended", "gggears_core"), **kw)


def profile_hook(X):
    """replace the generation of tooth profiles by an arbitrary profile of the same slice (used where the property
    concerns what is done with profiles; profile generation itself is analysed in scenarios of its own)"""
    cg = X.cls("Gear", "gggears_core").lookup("curve_gen_at_z")[0]
    n = [0]

    def hook(f, env):
        if f is cg:
            me = env.d[f.node.args.args[0].arg]
            z = env.d[f.node.args.args[1].arg]
            rec = X.call(X.I.getattr(me, "shape_recipe"), z)
            tr = X.I.getattr(rec, "transform")
            t = X.call(X.name("GearTransform"), center=X.get(tr, "center"), orientation=X.get(tr, "orientation"),
                       scale=X.get(tr, "scale"), angle=X.get(tr, "angle"))
            deps = frozenset(["<profile>"]) | deps_of(z)
            n[0] += 1
            p = synth_profile(X, "prof:", deps, t)
            X.I.setattr(p, "pitch_angle", X.I.getattr(rec, "pitch_angle"))
            return p
        return None
    X.I.call_hook = hook
    return n
