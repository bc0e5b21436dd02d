"""Abstract numbers and their transfer functions.

A Num is a record of independent facts about a numeric value (scalar or array):
  const  known scalar constant or None           shape  tuple / None (unknown)
  elems  component facts of short 1-D vectors    deps   labels of inputs that may influence the value
  dim    exponent of the global length unit      rot/wt behaviour under rigid motion of the world
  ang    multiplicative angle factor (rad=1)     term   value number
For dim, rot and ang: None = unknown (never reported), Bad = definite violation of homogeneity.
"""
import math
from . import terms as T


class Bad:
    __slots__ = ("msg", "where")

    def __init__(self, msg, where=None):
        self.msg = msg
        self.where = where if where is not None else WHERE()

    def __repr__(self):
        return "Bad(%s @ %s)" % (self.msg, self.where)


def WHERE():
    return "?"


def set_where(f):
    global WHERE
    WHERE = f


class NF(float):
    """multiplicative factor of a quantity that contains no angle (a count, ratio or length)"""
    __slots__ = ()


N1 = NF(1.0)
Z = "Z"
NODEPS = frozenset()
TINY = 1e-4


class Num:
    __slots__ = ("const", "shape", "elems", "deps", "dim", "rot", "wt", "ang", "term", "isint", "extra")

    def __init__(self, const=None, shape=(), elems=None, deps=NODEPS, dim=0, rot="S", wt=T.ZERO, ang=N1, term=None,
                 isint=False, extra=None):
        self.const = const
        self.shape = shape
        self.elems = elems
        self.deps = deps
        self.dim = dim
        self.rot = rot
        self.wt = wt
        self.ang = ang
        self.term = term
        self.isint = isint
        self.extra = extra

    def with_(self, **kw):
        n = Num(self.const, self.shape, self.elems, self.deps, self.dim, self.rot, self.wt, self.ang, self.term,
                self.isint, self.extra)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def __repr__(self):
        s = []
        if self.const is not None:
            s.append("=%r" % (self.const,))
        s.append("sh%s" % (self.shape,))
        s.append("dim=%s rot=%s ang=%s" % (self.dim, self.rot, self.ang))
        if self.deps:
            s.append("deps=%s" % ",".join(sorted(self.deps)))
        if self.term is not None:
            s.append("t=" + T.show(self.term, 2)[:80])
        return "Num(%s)" % " ".join(s)


_fresh = [0]


def fresh_term(tag="u", tens=False):
    _fresh[0] += 1
    return (T.tensor if tens else T.scalar)((tag, _fresh[0]))


def num_const(c):
    if isinstance(c, bool):
        return Num(const=c, dim=0, rot="S", ang="P", term=T.const(int(c)), isint=True)
    if isinstance(c, complex):
        return Num(const=None, ang="P", term=T.scalar(("complex", repr(c))))
    if c == 0:
        return Num(const=c, dim=Z, rot=Z, ang="P", term=T.ZERO, isint=isinstance(c, int))
    d = 0
    if isinstance(c, float) and (abs(c) <= TINY or not math.isfinite(c)):
        d = Z
    t = T.const(c) if math.isfinite(c) else T.scalar(("inf", repr(c)))
    return Num(const=c, dim=d, rot="S", ang="P", term=t, isint=isinstance(c, int))


def unknown(deps=NODEPS, shape=None, term=None):
    return Num(shape=shape, deps=deps, dim=None, rot=None, wt=None, ang=None, term=term or fresh_term())


def is_zero(n):
    return n.rot == Z or (n.const is not None and n.const == 0)


# ---------------------------------------------------------------- helpers
def bshape(a, b):
    if a is None or b is None:
        return None
    if a == b or b == ():
        return a
    if a == ():
        return b
    la, lb = len(a), len(b)
    n = max(la, lb)
    a = (1,) * (n - la) + tuple(a)
    b = (1,) * (n - lb) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
        elif x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        else:
            out.append(None)
    return tuple(out)


def dim_same(a, b, what="combines"):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is None or b is None:
        return None
    if a == Z:
        return b
    if b == Z:
        return a
    if abs(a - b) < 1e-9:
        return a
    return Bad("%s a quantity of length dimension %g with one of dimension %g" % (what, a, b))


def dim_add(a, b, sign=1):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is None or b is None:
        return None
    if a == Z:
        return Z
    if b == Z:
        # tiny constants and zeros behave as dimensionless factors
        return a
    return a + sign * b


def dim_pure(n, what):
    d = n.dim
    if isinstance(d, Bad) or d is None:
        return d
    if d == Z or abs(d) < 1e-9:
        return 0
    return Bad("%s applied to a quantity of length dimension %g" % (what, d))


def nice(f):
    if f == 0 or not math.isfinite(f):
        return True
    a = abs(f)
    if a < 1e-7 or a > 1e7:
        return False
    for k in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20, 25, 32, 50, 64, 90, 100, 128, 180, 200, 256, 360, 500, 512, 720, 1000):
        x = a * k
        if x >= 0.5 and abs(x - round(x)) < 1e-9 * max(1.0, x):
            return True
    return False


DEG = 180.0 / math.pi


def ang_class(f):
    if f is None or f == "P" or isinstance(f, Bad):
        return None
    if isinstance(f, NF):
        # a fraction of a turn: only 2*pi/n style factors identify the unit
        return "rad" if nice(f / math.pi) and not nice(f) else None
    if nice(f):
        return "rad"
    if nice(f / DEG):
        return "deg"
    return None


def ang_add(a, b):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a == "P":
        return b
    if b == "P":
        return a
    if a is None or b is None:
        return None
    if abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
        return a
    if isinstance(a, NF) and isinstance(b, NF):
        return N1 if nice(a) == nice(b) else None
    ca, cb = ang_class(a), ang_class(b)
    if ca and ca == cb:
        return 1.0 if ca == "rad" else DEG
    if isinstance(a, NF) and ca is None:
        return b
    if isinstance(b, NF) and cb is None:
        return a
    if ca and cb:
        return Bad("adds an angle in %s to one in %s" % (ca, cb))
    return None


def ang_mul(x, y, div=False):
    a, b = x.ang, y.ang
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is None or b is None:
        return None
    if a == "P" and b == "P":
        return "P"

    def fac(n, f):
        if f == "P":
            if n.const is None or isinstance(n.const, bool):
                return N1 if n.const is None and n.rot == Z else (N1 if n.const is not None else None)
            return NF(float(n.const) or 1.0)
        return f
    fa, fb = fac(x, a), fac(y, b)
    if fa is None or fb is None:
        # constant arrays (basis vectors, sign flips): keep the other factor
        return fb if fa is None else fa
    r = fa / fb if div else fa * fb
    if isinstance(fa, NF) and isinstance(fb, NF):
        return NF(r)
    return r


def ndim(n):
    return None if n.shape is None else len(n.shape)


# ---------------------------------------------------------------- rigid motion kinds
def _E(k):
    return isinstance(k, tuple) and k[0] == "E"


def rot_add(x, y, sub=False):
    a, b = x.rot, y.rot
    if isinstance(a, Bad):
        return a, None
    if isinstance(b, Bad):
        return b, None
    if a is None or b is None:
        return None, None
    if a == Z:
        return b, (y.wt if not sub or y.wt is None else T.neg(y.wt))
    if b == Z:
        return a, x.wt
    if a == "S" and b == "S":
        return "S", T.ZERO
    if a in ("V", "Ft") and b in ("V", "Ft"):
        if x.wt is None or y.wt is None:
            return "V", None
        return "V", (T.sub if sub else T.add)(x.wt, y.wt)
    if a == b and a in ("F", "G", "C", "Q"):
        return a, T.ZERO
    if _E(a) and b == "S" and a[2] == 0 and a[1].islower():
        return a, T.ZERO
    if _E(b) and a == "S" and b[2] == 0 and b[1].islower() and not sub:
        return b, T.ZERO
    if {a, b} == {"C", "S"}:
        return "C", T.ZERO
    if {a, b} == {"V", "S"}:
        s = x if a == "S" else y
        return Bad("adds a fixed (frame-independent) vector or number to a world vector"), None
    if _E(a) or _E(b):
        return Bad("combines an Euler angle of a placed frame with another quantity"), None
    return None, None


def rot_mul(x, y, div=False):
    a, b = x.rot, y.rot
    if isinstance(a, Bad):
        return a, None
    if isinstance(b, Bad):
        return b, None
    if a == Z:
        return Z, T.ZERO
    if b == Z:
        return (Z, T.ZERO) if not div else (None, None)
    if a is None or b is None:
        return None, None
    if a == "S" and b == "S":
        return "S", T.ZERO
    if b == "S" or (a == "S" and not div):
        k, s = (x, y) if b == "S" else (y, x)
        kk = k.rot
        if kk in ("V", "F", "Ft", "G", "Q"):
            if s.shape == () or (s.shape is not None and all(q == 1 for q in s.shape)) or _uniform(s) \
                    or (s.shape is not None and len(s.shape) >= 2 and s.shape[-1] == 1):
                if kk in ("V", "Ft"):
                    if k.wt is None:
                        return kk, None
                    if k.wt == T.ZERO:
                        return kk, T.ZERO
                    if s.term is None:
                        return kk, None
                    return kk, (T.div if div else T.mul)(k.wt, s.term)
                return kk, T.ZERO
            if s.shape is None:
                return None, None
            if kk in ("V",) and s.shape == (3,):
                return Bad("multiplies the components of a world vector by unequal fixed factors"), None
            return None, None
        if kk == "C":
            return "C", T.ZERO
        if _E(kk):
            if s.const is not None:
                return kk, T.ZERO
            return Bad("scales an Euler angle of a placed frame"), None
        return None, None
    if a == "V" and b == "V" and not div:
        if x.wt == T.ZERO and y.wt == T.ZERO:
            return "Q", T.ZERO
        return None, None
    if a == "Q" or b == "Q":
        return None, None
    if a == "C" and b == "C":
        return None, None
    if _E(a) or _E(b):
        return Bad("multiplies an Euler angle of a placed frame"), None
    return None, None


def _uniform(s):
    if s.elems:
        c = [e.const for e in s.elems]
        return c[0] is not None and all(v == c[0] for v in c)
    return False


def rot_fn(n, what):
    """elementwise non-linear function of one argument"""
    k = n.rot
    if k is None or isinstance(k, Bad):
        return k
    if k in ("S", Z):
        return "S"
    if k == "Q":
        return None
    if k == "C":
        return Bad("%s of a single world coordinate" % what)
    if _E(k):
        return Bad("%s of an Euler angle of a placed frame" % what)
    if k in ("V", "F", "Ft", "G"):
        return Bad("%s of the components of a world vector" % what)
    return None


def _first(n):
    """(first index, last index, ndim) world/local signature"""
    k = n.rot
    nd = ndim(n)
    if k == "S" or k == Z:
        return ("l", "l", nd)
    if k == "V":
        if nd == 1 or nd is None:
            return ("w", "w", 1)
        return ("l", "w", nd)
    if k == "Ft":
        return ("l", "w", 2)
    if k == "F":
        return ("w", "l", 2)
    if k == "G":
        return ("w", "w", 2)
    return None


def rot_matmul(x, y):
    a, b = x.rot, y.rot
    if isinstance(a, Bad):
        return a, None
    if isinstance(b, Bad):
        return b, None
    if a is None or b is None:
        return None, None
    if a == Z or b == Z:
        return Z, T.ZERO
    fa, fb = _first(x), _first(y)
    if fa is None or fb is None:
        if a == "C" or b == "C":
            return Bad("multiplies a matrix with single world coordinates"), None
        return None, None
    if fa[2] is None or fb[2] is None:
        if a == "S" and b == "S":
            return "S", T.ZERO
        if fa[1] != fb[0]:
            pass
        return None, None
    if fa[1] != fb[0]:
        return Bad("applies a matrix of one frame to a vector of another frame (%s @ %s)" % (a, b)), None
    # contraction ok
    if fa[1] == "w":
        for n, k in ((x, a), (y, b)):
            if k in ("V", "Ft"):
                if n.wt is None:
                    return None, None
                if n.wt != T.ZERO:
                    # matrix from the left on a list of world points keeps weights only for pure rotations
                    if k == "V" and n is x and b == "G":
                        return Bad("rotates absolute positions about the world origin"), None
                    if k == "V" and n is y and a == "G":
                        return Bad("rotates absolute positions about the world origin"), None
                    return Bad("expresses an absolute position in a local frame without subtracting the frame's origin"), None
    left = None if fa[2] == 1 else fa[0]
    right = None if fb[2] == 1 else fb[1]
    if left is None and right is None:
        return "S", T.ZERO
    if left is None:
        return ("V", T.ZERO) if right == "w" else ("S", T.ZERO)
    if right is None:
        return ("V", T.ZERO) if left == "w" else ("S", T.ZERO)
    k = {("l", "l"): "S", ("w", "l"): "F", ("l", "w"): "Ft", ("w", "w"): "G"}[(left, right)]
    if k == "Ft" and a in ("V",):
        k = "V"
    return k, T.ZERO


# ---------------------------------------------------------------- arithmetic
def deps2(a, b):
    if a.deps is b.deps or not b.deps:
        return a.deps
    if not a.deps:
        return b.deps
    return a.deps | b.deps


def _elems2(op, a, b):
    if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
        return [op(x, y) for x, y in zip(a.elems, b.elems)]
    if a.elems is not None and b.shape == ():
        return [op(x, b) for x in a.elems]
    if b.elems is not None and a.shape == ():
        return [op(a, y) for y in b.elems]
    return None


def _cfold(op, a, b):
    if a.const is None or b.const is None:
        return None
    try:
        r = op(a.const, b.const)
        if isinstance(r, complex):
            return None
        return r
    except Exception:
        return None


def n_add(a, b, sub=False):
    c = _cfold((lambda x, y: x - y) if sub else (lambda x, y: x + y), a, b)
    if c is not None:
        r = num_const(c)
        d = deps2(a, b)
        if d:
            r = r.with_(deps=d)
        return r
    rk, wt = rot_add(a, b, sub)
    t = None
    if a.term is not None and b.term is not None:
        t = (T.sub if sub else T.add)(a.term, b.term)
    dim = dim_same(a.dim, b.dim, "adds")
    return Num(None, bshape(a.shape, b.shape), _elems2(lambda x, y: n_add(x, y, sub), a, b), deps2(a, b), dim, rk, wt,
               ang_add(a.ang, b.ang), t, a.isint and b.isint)


def n_sub(a, b):
    return n_add(a, b, True)


def n_neg(a):
    if a.const is not None and not isinstance(a.const, complex):
        r = num_const(-a.const)
        return r.with_(deps=a.deps) if a.deps else r
    return a.with_(elems=[n_neg(e) for e in a.elems] if a.elems else None, term=T.neg(a.term) if a.term is not None else None,
                   wt=T.neg(a.wt) if a.wt is not None else None, rot=(Bad("negates an Euler angle") if _E(a.rot) else a.rot))


def n_mul(a, b):
    c = _cfold(lambda x, y: x * y, a, b)
    if c is not None:
        r = num_const(c)
        d = deps2(a, b)
        return r.with_(deps=d) if d else r
    rk, wt = rot_mul(a, b)
    t = T.mul(a.term, b.term) if a.term is not None and b.term is not None else None
    dim = Z if (is_zero(a) or is_zero(b)) else dim_add(a.dim, b.dim)
    if dim == Z and not (is_zero(a) or is_zero(b)):
        dim = b.dim if a.dim == Z else a.dim
    return Num(None, bshape(a.shape, b.shape), _elems2(n_mul, a, b), deps2(a, b), dim, rk, wt, ang_mul(a, b), t,
               a.isint and b.isint)


def n_div(a, b):
    c = None
    if b.const:
        c = _cfold(lambda x, y: x / y, a, b)
    if c is not None:
        r = num_const(c)
        d = deps2(a, b)
        return r.with_(deps=d) if d else r
    rk, wt = rot_mul(a, b, True)
    t = T.div(a.term, b.term) if a.term is not None and b.term is not None else None
    dim = dim_add(a.dim, b.dim, -1)
    if dim == Z and not is_zero(a):
        dim = -b.dim if isinstance(b.dim, (int, float)) else None
    return Num(None, bshape(a.shape, b.shape), _elems2(n_div, a, b), deps2(a, b), dim, rk, wt, ang_mul(a, b, True), t)


def tapp(*ns):
    """application with a scalar or an array result"""
    for n in ns:
        if (n.shape is not None and n.shape != ()) or (n.term is not None and not T.is_scalar(n.term)):
            return T.app_t
    return T.app


def n_generic2(name, a, b, dimres="same"):
    c = None
    ops = {"mod": lambda x, y: x % y, "floordiv": lambda x, y: x // y, "pow": lambda x, y: x ** y,
           "maximum": max, "minimum": min, "arctan2": math.atan2}
    if name in ops and not (name in ("mod", "floordiv") and b.const == 0):
        c = _cfold(ops[name], a, b)
    if c is not None:
        r = num_const(c)
        d = deps2(a, b)
        return r.with_(deps=d) if d else r
    t = tapp(a, b)(name, a.term, b.term) if a.term is not None and b.term is not None else None
    d = dim_same(a.dim, b.dim, name + " of")
    if name == "arctan2" and t is not None and b.term is not None:
        pass
    if not isinstance(d, Bad) and d is not None:
        if dimres == "zero":
            d = 0
    rk = rot_fn(a, name)
    rk2 = rot_fn(b, name)
    if isinstance(rk2, Bad) or rk2 is None:
        rk = rk if isinstance(rk, Bad) else rk2
    return Num(None, bshape(a.shape, b.shape), None, deps2(a, b), d, rk, T.ZERO,
               ang_add(a.ang, b.ang) if dimres == "same" else N1, t, a.isint and b.isint)


def n_mod(a, b):
    return n_generic2("mod", a, b, "same")


def n_floordiv(a, b):
    return n_generic2("floordiv", a, b, "zero")


def n_pow(a, b):
    c = _cfold(lambda x, y: x ** y, a, b)
    if c is not None:
        r = num_const(c)
        d = deps2(a, b)
        return r.with_(deps=d) if d else r
    e = b.const
    t = None
    if a.term is not None:
        if e is not None:
            t = T.power(a.term, e)
        if t is None and b.term is not None:
            t = tapp(a, b)("pow", a.term, b.term)
    d = a.dim
    if not isinstance(d, Bad) and d is not None:
        if d == Z:
            d = 0 if not is_zero(a) else Z
        elif e is not None:
            d = d * e
        elif d != 0:
            d = Bad("raises a length to a variable power")
    if isinstance(b.dim, Bad):
        d = b.dim
    if a.rot == "V" and e == 2 and a.wt == T.ZERO:
        rk = "Q"
    elif a.rot == "C":
        rk = None
    else:
        rk = rot_fn(a, "power")
    f = a.ang
    if isinstance(f, float) and e is not None:
        try:
            f = type(f)(f ** e)
        except Exception:
            f = None
    return Num(None, bshape(a.shape, b.shape), [n_pow(x, b) for x in a.elems] if a.elems and b.shape == () else None,
               deps2(a, b), d, rk, T.ZERO, f, t, a.isint and b.isint and e is not None and e >= 0)


def mm_shape(a, b):
    if a is None or b is None:
        return None
    if len(a) == 0 or len(b) == 0:
        return None
    if len(a) == 1 and len(b) == 1:
        return ()
    if len(a) == 1:
        return tuple(b[:-2]) + (b[-1],)
    if len(b) == 1:
        return tuple(a[:-1])
    la, lb = tuple(a[:-2]), tuple(b[:-2])
    lead = la if len(la) >= len(lb) else lb
    return lead + (a[-2], b[-1])


def n_matmul(a, b):
    rk, wt = rot_matmul(a, b)
    t = None
    if a.term is not None and b.term is not None:
        na, nb = ndim(a), ndim(b)
        if nb in (1, 2) and na == 2:
            t = T.matmul(a.term, b.term)
        elif na == 1 and nb == 2:
            t = T.matmul(T.transpose(b.term), a.term)
        elif na == 1 and nb == 1:
            t = T.app("dot", *sorted((a.term, b.term)))
            da = _dot3(a.term, b.term)
            if da is not None:
                t = da
        else:
            t = T.app_t("matmul", a.term, b.term)
    return Num(None, mm_shape(a.shape, b.shape), None, deps2(a, b), dim_add(a.dim, b.dim), rk, wt,
               ang_mul(a, b), t)


def _dot3(s, t):
    r = T.ZERO
    for i in range(3):
        x, y = T.comp3(s, i), T.comp3(t, i)
        if x is None or y is None:
            return None
        r = T.add(r, T.mul(x, y))
    return r


def n_cmp(opname, a, b):
    """comparison result: boolean Num whose dim/rot are Bad when the outcome is not invariant"""
    deps = deps2(a, b)
    d = dim_same(a.dim, b.dim, "compares")
    if not isinstance(d, Bad):
        d = 0 if d is not None else None
    rk = None
    ra, rb = a.rot, b.rot
    if isinstance(ra, Bad):
        rk = ra
    elif isinstance(rb, Bad):
        rk = rb
    elif ra is None or rb is None:
        rk = None
    elif ra in ("S", Z) and rb in ("S", Z):
        rk = "S"
    elif "C" in (ra, rb):
        rk = Bad("branches on a single world coordinate")
    elif _E(ra) or _E(rb):
        rk = Bad("branches on an Euler angle of a placed frame")
    elif opname in ("Eq", "NotEq") and ra in ("V",) and rb in ("V", Z):
        wa = a.wt if a.wt is not None else None
        wb = b.wt if rb == "V" else T.ZERO
        if wa is None or wb is None:
            rk = None
        elif wa == wb:
            rk = "S"
        else:
            rk = Bad("compares an absolute position with a fixed value")
    elif ra == "V" or rb == "V":
        rk = Bad("compares components of a world vector")
    an = ang_add(a.ang, b.ang)
    t = T.app("cmp" + opname, a.term, b.term) if a.term is not None and b.term is not None else None
    return Num(None, bshape(a.shape, b.shape), None, deps, d, rk, T.ZERO, an if isinstance(an, Bad) else N1, t)


# functions of one argument: how the dimension behaves
PURE_FN = {"sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp", "log", "floor", "ceil", "round", "int", "asin", "acos",
           "atan", "sinh", "cosh", "tanh", "log10", "log2", "rint", "trunc", "degrees", "radians", "deg2rad", "rad2deg"}
TRIG = {"sin", "cos", "tan"}
ALIAS = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "absolute": "abs", "fabs": "abs"}


def n_fn(name, a, sink=None):
    name = ALIAS.get(name, name)
    if a.const is not None and not isinstance(a.const, bool):
        f = {"abs": abs, "sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt, "floor": math.floor,
             "ceil": math.ceil, "int": int, "float": float, "sign": lambda x: (x > 0) - (x < 0), "arcsin": math.asin,
             "arccos": math.acos, "arctan": math.atan, "round": round}.get(name)
        if f:
            try:
                r = num_const(f(a.const))
                return r.with_(deps=a.deps) if a.deps else r
            except Exception:
                pass
    if name == "float":
        return a
    if a.isint and name in ("floor", "ceil", "round", "int", "rint", "trunc"):
        return a
    t = None
    if a.term is not None:
        t = a.term
        if name in ("sin", "tan", "arctan", "arcsin", "sign") and t and t[0][1] < 0:
            t = T.neg(tapp(a)(name, T.neg(t)))
        elif name == "abs":
            t = abs_term(t) if T.is_scalar(t) else T.app_t("abs", t)
        elif name == "cos" and t and t[0][1] < 0:
            t = tapp(a)(name, T.neg(t))
        elif name == "sqrt":
            t = tapp(a)("sqrt", t)
        elif name in ("deg2rad", "radians"):
            t = T.scale(t, math.pi / 180)
        elif name in ("rad2deg", "degrees"):
            t = T.scale(t, 180 / math.pi)
        else:
            t = tapp(a)(name, t)
        if a.rot in ("V",) or (a.shape not in ((), None)):
            pass
    f = a.ang
    if name in TRIG:
        if ang_class(f) == "deg":
            if sink:
                sink("ang", "%s() of an angle in degrees" % name)
            f = Bad("%s() of an angle in degrees" % name)
        else:
            f = f if isinstance(f, Bad) else N1
    elif name in ("deg2rad", "radians"):
        f = type(f)(f / DEG) if isinstance(f, float) else f
    elif name in ("rad2deg", "degrees"):
        f = type(f)(f * DEG) if isinstance(f, float) else f
    elif name in ("abs", "floor", "ceil", "round", "int", "sqrt"):
        f = a.ang if name != "sqrt" else (a.ang if not isinstance(a.ang, float) else type(a.ang)(abs(a.ang) ** 0.5))
    elif name.startswith("arc"):
        f = f if isinstance(f, Bad) else 1.0
    else:
        f = f if isinstance(f, Bad) else N1
    if name == "sqrt":
        d = a.dim
        if isinstance(d, (int, float)):
            d = d / 2
    elif name == "abs":
        d = a.dim
    elif name == "sign":
        d = a.dim if isinstance(a.dim, Bad) else (0 if a.dim is not None else None)
    elif name in PURE_FN:
        d = dim_pure(a, name + "()")
    else:
        d = None
    if name in ("sqrt",) and a.rot == "Q":
        rk = None
    else:
        rk = rot_fn(a, name + "()")
    if a.rot == Z and name in ("abs", "sqrt", "sin", "tan", "sign"):
        rk = Z
        d = Z
        t = T.ZERO
    return Num(None, a.shape, [n_fn(name, e, sink) for e in a.elems] if a.elems else None, a.deps, d, rk, T.ZERO, f, t,
               name in ("int", "floor", "ceil", "round") and False or name == "int")


def n_norm(a):
    k = a.rot
    if k in ("S", "F", "G"):
        r = "S"
    elif k == Z:
        r = Z
    elif k in ("V", "Ft"):
        if a.wt is None:
            r = None
        elif a.wt == T.ZERO:
            r = "S"
        else:
            r = Bad("norm of an absolute position")
    elif k == "C":
        r = Bad("norm of a part of the world coordinates")
    else:
        r = k if isinstance(k, Bad) else None
    t = norm_term(a.term) if a.term is not None else None
    return Num(None, None, None, a.deps, a.dim, r, T.ZERO, a.ang, t)


def _common(t):
    """(coefficient, monomial) common to all summands, and the rest"""
    mono = dict(t[0][0][1])
    for (w, m), c in t[1:]:
        d = dict(m)
        for a in list(mono):
            e = d.get(a, 0)
            if e == 0 or (e > 0) != (mono[a] > 0):
                del mono[a]
            elif abs(e) < abs(mono[a]):
                mono[a] = e
    m0 = tuple(sorted(mono.items()))
    c0 = t[0][1]
    inv = tuple((a, -e) for a, e in m0)
    return c0, m0, T._mk({(w, T._mm(m, inv)): c / c0 for (w, m), c in t})


def _abs_mono(c, m):
    from . import models as M
    r = T.const(abs(c))
    for a, e in m:
        at = ((((), ((a, e),)), 1.0),)
        k = T.atom_key(a)
        if a in M.POS or e % 2 == 0 or (k[0] == "app" and k[1] in ("abs", "norm", "sqrt")):
            r = T.mul(r, at)
        else:
            b = T.app("abs", ((((), ((a, 1),)), 1.0),))
            ba = b[0][0][1][0][0]
            r = T.mul(r, ((((), ((ba, e),)), 1.0),))
    return r


def abs_term(t):
    if t == T.ZERO or not T.is_scalar(t):
        return t if t == T.ZERO else T.app("abs", _pos(t))
    c0, m0, rest = _common(t)
    r = _abs_mono(c0, m0)
    if rest != T.ONE:
        r = T.mul(r, T.app("abs", rest))
    return r


def norm_term(t):
    if t == T.ZERO:
        return T.ZERO
    if any(not w for (w, m), c in t):
        return T.app("norm", _pos(t))
    while len(t[0][0][0]) > 1:
        a = t[0][0][0][0]
        if not T._is_orth(a) or any(len(w) < 2 or w[0] != a for (w, m), c in t):
            break
        t = T._mk({(w[1:], m): c for (w, m), c in t})
    w0 = t[0][0][0]
    if all(w == w0 for (w, m), c in t):
        s = T._mk({((), m): c for (w, m), c in t})
        r = abs_term(s)
        if len(w0) == 1 and T.atom_key(w0[0])[0] == "e":
            return r
        return T.mul(r, T.app("norm", (((w0, ()), 1.0),)))
    c0, m0, rest = _common(t)
    return T.mul(_abs_mono(c0, m0), T.app("norm", rest))


def _pos(t):
    return T.neg(t) if t and t[0][1] < 0 else t


def n_cross(a, b):
    ka, kb = a.rot, b.rot
    wt = T.ZERO
    if isinstance(ka, Bad):
        r = ka
    elif isinstance(kb, Bad):
        r = kb
    elif ka is None or kb is None:
        r = None
    elif Z in (ka, kb):
        r = Z
    elif ka == "S" and kb == "S":
        r = "S"
    elif ka in ("V", "Ft") and kb in ("V", "Ft"):
        if a.wt is None or b.wt is None:
            r = None
        elif a.wt == T.ZERO and b.wt == T.ZERO:
            r = "V"
        else:
            r = Bad("cross product of an absolute position")
    elif {ka, kb} & {"V"} and {ka, kb} & {"S"}:
        r = Bad("cross product of a world vector with a fixed vector")
    else:
        r = None
    t = None
    if a.term is not None and b.term is not None:
        if a.term == T.ZERO or b.term == T.ZERO or a.term == b.term:
            t = T.ZERO
        elif (a.term, b.term) <= (b.term, a.term):
            t = T.app_t("cross", a.term, b.term)
        else:
            t = T.neg(T.app_t("cross", b.term, a.term))
    return Num(None, bshape(a.shape, b.shape), None, deps2(a, b), dim_add(a.dim, b.dim), r, wt, N1, t)


def n_transpose(a):
    sh = None if a.shape is None else tuple(reversed(a.shape))
    k = a.rot
    if k in ("V", "Ft"):
        if ndim(a) == 1:
            return a
        if ndim(a) == 2:
            k = "F" if (a.wt == T.ZERO) else None
        else:
            k = None
    elif k == "F":
        k = "Ft"
    t = a.term
    if t is not None and ndim(a) != 1:
        t = T.transpose(t)
    return a.with_(shape=sh, rot=k, term=t, elems=None if ndim(a) != 1 else a.elems)


def n_join(a, b, cond=None):
    if a is b:
        return a
    deps = deps2(a, b)
    dim = a.dim
    if isinstance(a.dim, Bad):
        dim = a.dim
    elif isinstance(b.dim, Bad):
        dim = b.dim
    elif a.dim is None or b.dim is None:
        dim = None
    elif a.dim == Z:
        dim = b.dim
    elif b.dim == Z:
        dim = a.dim
    elif abs(a.dim - b.dim) > 1e-9:
        dim = Bad("length dimension depends on the branch taken (%g or %g)" % (a.dim, b.dim))
    ra, rb = a.rot, b.rot
    wt = a.wt
    if isinstance(ra, Bad):
        r = ra
    elif isinstance(rb, Bad):
        r = rb
    elif ra is None or rb is None:
        r = None
    elif ra == rb:
        r = ra
        if a.wt is None or b.wt is None:
            wt = None
        elif a.wt != b.wt:
            ca, cb = T.is_const(a.wt), T.is_const(b.wt)
            if ca is not None and cb is not None:
                r = Bad("translation behaviour depends on the branch taken")
            wt = None
    elif ra == Z:
        r, wt = rb, b.wt
        if rb == "V" and b.wt not in (None, T.ZERO):
            r = Bad("translation behaviour depends on the branch taken")
    elif rb == Z:
        r, wt = ra, a.wt
        if ra == "V" and a.wt not in (None, T.ZERO):
            r = Bad("translation behaviour depends on the branch taken")
    elif {ra, rb} == {"V", "S"} or {ra, rb} == {"F", "S"}:
        r = Bad("frame of the value depends on the branch taken")
    elif {ra, rb} == {"V", "Ft"}:
        r = "V"
    else:
        r = None
    f = a.ang
    if isinstance(a.ang, Bad):
        f = a.ang
    elif isinstance(b.ang, Bad):
        f = b.ang
    elif a.ang is None or b.ang is None:
        f = None
    elif a.ang == "P":
        f = b.ang
    elif b.ang == "P":
        f = a.ang
    elif a.ang != b.ang:
        ca, cb = ang_class(a.ang), ang_class(b.ang)
        if ca and ca == cb:
            f = 1.0 if ca == "rad" else DEG
        elif ca and cb:
            f = Bad("angle unit depends on the branch taken")
        elif isinstance(a.ang, NF) and isinstance(b.ang, NF):
            f = N1 if nice(a.ang) == nice(b.ang) else None
        elif isinstance(a.ang, NF) and ca is None:
            f = b.ang
        elif isinstance(b.ang, NF) and cb is None:
            f = a.ang
        else:
            f = None
    const = a.const if (a.const is not None and b.const is not None and a.const == b.const and type(a.const) is type(b.const)) else None
    term = a.term if a.term == b.term else None
    if term is None and cond is not None and cond.term is not None and a.term is not None and b.term is not None:
        term = tapp(a, b)("phi", cond.term, a.term, b.term)
    elif term is None:
        term = fresh_term("j")
    if cond is not None and (const is None) and a.term != b.term:
        if cond.deps:
            deps = deps | cond.deps
        if isinstance(cond.dim, Bad):
            dim = Bad("chosen by a comparison that is not invariant under scaling: " + cond.dim.msg, cond.dim.where)
        if isinstance(cond.rot, Bad):
            r = Bad("chosen by a comparison that is not invariant under rigid motion: " + cond.rot.msg, cond.rot.where)
        if isinstance(cond.ang, Bad):
            f = cond.ang
    elems = None
    if a.elems and b.elems and len(a.elems) == len(b.elems):
        elems = [n_join(x, y, cond) for x, y in zip(a.elems, b.elems)]
    shape = a.shape if a.shape == b.shape else None
    if a.shape is not None and b.shape is not None and a.shape != b.shape and len(a.shape) == len(b.shape):
        shape = tuple(x if x == y else None for x, y in zip(a.shape, b.shape))
    extra = None
    if (a.extra is not None or b.extra is not None) and elems is None:
        from . import models as M
        sa, sb = M.span_of(a), M.span_of(b)
        if sa is not None and sb is not None:
            u = M.span_union([sa, sb])
            if u is not None:
                extra = ("span", u[0], u[1], sa[2] and sb[2])
    return Num(const, shape, elems, deps, dim, r, wt, f, term, a.isint and b.isint, extra)


def n_merge(nums, tag="merge", shape=None, args=None):
    """facts of a value assembled from several pieces (array contents, container summary)"""
    r = nums[0]
    for n in nums[1:]:
        r = n_join(r, n)
    return r
