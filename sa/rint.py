"""Equality of value numbers by random interpretation (Gulwani & Necula): two abstract values are compared by
evaluating their normal forms in several randomly chosen models of the inputs.  No program code is run: what is
evaluated are value numbers computed by the analysis.  Operators the analysis does not interpret are mapped to random
functions of their arguments (congruence).

eq(a, b) -> True  equal in every sampled model
            False different in a model, and both sides are built from the same unknown parts
            None  undecided (different unknown parts, or no model in which both are defined)
"""
import hashlib
import math
import re
import os
import random
from . import terms as T
from . import models as M

RANGES = {
    "number_of_teeth": lambda r: float(r.randint(11, 40)),
    "module": lambda r: r.uniform(0.6, 3.0),
    "height": lambda r: r.uniform(1.0, 9.0),
}
NS = 6
INT = set()          # atoms known to be whole numbers


#: inputs that are lists: points<rows>, weights<rows>
ROWS = re.compile(r"(points|weights)(\d*)$")


class Undef(Exception):
    pass


class Bot:
    """a value that cannot be evaluated"""


BOT = Bot()


class Batch:
    """a list of rotation matrices"""

    def __init__(self, ms):
        self.ms = ms


def base(label):
    return label.split(":")[-1].split(".")[-1].lstrip("_")


class Model:
    def __init__(self, i):
        self.i = i
        self.seed = "%s/%d" % (os.environ.get("VERIF_SEED", "1"), i)
        self.memo = {}
        self.opaque = None
        self.over = None        # (key, value) -> value: change of the inputs

    def rng(self, key):
        h = hashlib.sha256((self.seed + repr(key)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    # -------------------------------------------------------- values
    def scalar_in(self, a, key):
        r = self.rng(("s", key))
        lab = str(key[1])
        for k, f in RANGES.items():
            if lab.endswith(k):
                return f(r)
        if base(lab) == "angle":
            return r.uniform(-7.0, 7.0)
        v = r.uniform(0.11, 0.62) if "angle" in lab or lab.endswith("cone") else r.uniform(0.15, 0.9)
        if not (a in M.POS or "cone" in lab) and r.random() >= 0.6:
            v = -v
        return v

    def vec_in(self, key):
        r = self.rng(("v", key))
        lab = str(key[1]) if key[0] == "in" else ""
        m = ROWS.search(lab)
        if m:
            n = int(m.group(2) or 4)
            if m.group(1) == "points":
                return [[r.uniform(-1.5, 1.5) for _ in range(3)] for _ in range(n)]
            return [r.uniform(0.5, 2.0) for _ in range(n)]
        k = r.choice((1.0, 1.0, 1.0, 8.0, 40.0))
        return [k * r.uniform(-1.5, 1.5) for _ in range(3)]

    def mat_in(self, key, orth):
        if key[0] == "in" and ROWS.search(str(key[1])):
            return self.vec_in(key)
        r = self.rng(("m", key))
        if orth:
            q = [r.gauss(0, 1) for _ in range(4)]
            n = math.sqrt(sum(x * x for x in q))
            w, x, y, z = [c / n for c in q]
            return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                    [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                    [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
        return [[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]

    # -------------------------------------------------------- terms
    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = 0.0
            if len(t) == 1 and t[0][1] == 1.0 and not t[0][0][0] and len(t[0][0][1]) == 1 and t[0][0][1][0][1] == 1:
                r = self.sc(t[0][0][1][0][0])
                if not finite(r):
                    raise Undef
                self.memo[t] = r
                return r
            for (w, m), c in t:
                k = c
                for a, e in m:
                    k = mul(k, power(self.sc(a), e))
                if w:
                    k = mul(k, self.word(w))
                r = k if r == 0.0 else add(r, k)
            if not finite(r):
                raise Undef
            self.memo[t] = r
        return r

    def sc(self, a):
        k = ("s", a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._sc(a)
        return r

    def _sc(self, a):
        k = T.atom_key(a)
        if k[0] == "in":
            v = self.scalar_in(a, k)
            return v if self.over is None else self.over(k[1], v)
        if k[0] == "big":
            return self.ev_items(k[1])
        if k[0] == "app":
            return self.app(k, a, False)
        if k[0] == "inf":
            raise Undef
        if k[0] == "complex":
            raise Undef
        return self.free(a, k, "s")

    def ev_items(self, items):
        return self.ev(tuple(items))

    def word(self, w):
        v = None
        for i in range(len(w) - 1, -1, -1):
            x = self.wa(w[i], last=(i == len(w) - 1), only=len(w) == 1)
            v = x if v is None else matmul(x, v)
        return v

    def wa(self, a, last, only):
        k = T.atom_key(a)
        if k[0] == "e":
            return [1.0 if j == k[1] else 0.0 for j in range(3)]
        if k[0] == "rot":
            x = self.ev(k[2])
            if isinstance(x, list) and x and all(isinstance(y, float) for y in x):
                return Batch([rotm(k[1], y) for y in x])
            return rotm(k[1], num(x))
        if k[0] == "T":
            m = self.wa(k[1], False, False)
            if isinstance(m, Batch):
                return Batch([[list(r) for r in zip(*x)] for x in m.ms])
            if not ismat(m):
                raise Undef
            return [list(r) for r in zip(*m)]
        if k[0] == "in":
            v = self.mat_in(k, T._is_orth(a)) if T._is_orth(a) or not (last or k[0] == "in") else self.vec_in(k)
            return v if self.over is None else self.over(k[1], v)
        if k[0] == "app":
            return self.app(k, a, True, last)
        return self.free(a, k, "v" if last and not T._is_orth(a) else "m")

    def free(self, a, k, kind):
        self.use(("free", a, kind))
        if kind == "s":
            r = self.rng(("s", a))
            v = r.uniform(0.15, 0.9)
            return v if a in M.POS or r.random() < .6 else -v
        if kind == "v":
            return self.vec_in(("free", a))
        return self.mat_in(("free", a), T._is_orth(a))

    def use(self, x):
        if self.opaque is not None:
            self.opaque.add(x)

    # -------------------------------------------------------- applications
    def app(self, k, a, tens, last=True):
        name, args = k[1], k[2:]
        if name == "phi":
            c = self.ev(args[0])
            return self.ev(args[1] if truth(c) else args[2])
        f = FN.get(name)
        if f is not None:
            if name in ("store", "arr"):
                # a row that cannot be evaluated only matters where it is used
                vs = []
                for x in args:
                    try:
                        vs.append(self.ev(x) if isterm(x) else x)
                    except (Undef, TypeError, IndexError, ValueError, AttributeError):
                        if name == "store" and len(vs) != 1:
                            raise
                        vs.append(BOT)
            else:
                vs = [self.ev(x) if isterm(x) else x for x in args]
            try:
                r = f(*vs)
            except IndexError:
                if name != "idx":
                    raise Undef
                r = None        # an element of an unknown array
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                raise Undef
            if r is not None and not hasnone(r):
                return r
        # uninterpreted: congruent random function
        key = [name]
        for x in args:
            if isterm(x):
                try:
                    key.append(rnd(self.ev(x)))
                except Undef:
                    key.append("undefined")
            else:
                key.append(repr(x))
        key = tuple(map(repr, key))
        self.use(("app",) + key)
        if tens:
            if last and not T._is_orth(a):
                return self.vec_in(("app",) + key)
            return self.mat_in(("app",) + key, T._is_orth(a))
        r = self.rng(("app",) + key)
        return r.uniform(0.15, 0.9)


def isterm(x):
    return isinstance(x, tuple) and all(isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], tuple)
                                        and len(i[0]) == 2 and isinstance(i[1], float) for i in x)


def rnd(v):
    if isinstance(v, list):
        return [rnd(x) for x in v]
    if isinstance(v, float):
        if v == 0:
            return 0.0
        x = float("%.6g" % v)
        return 0.0 if abs(x) < 1e-9 else x
    return v


def hasnone(v):
    return v is None or isinstance(v, list) and any(hasnone(x) for x in v)


def finite(v):
    if isinstance(v, Batch):
        return all(finite(x) for x in v.ms)
    if v is BOT:
        return True
    if isinstance(v, Sparse):
        return all(finite(x) for _, x in v.w)
    if isinstance(v, list):
        return all(finite(x) for x in v)
    if isinstance(v, (slice, Nothing)):
        return True
    return math.isfinite(v) and abs(v) < 1e12


def num(v):
    if isinstance(v, list):
        raise Undef
    return float(v)


def truth(v):
    if isinstance(v, list):
        raise Undef
    return bool(v)


def ismat(v):
    return isinstance(v, list) and len(v) > 0 and isinstance(v[0], list)


def lift(f, *vs):
    if any(isinstance(v, list) for v in vs):
        n = {len(v) for v in vs if isinstance(v, list)}
        if len(n) > 1:
            # broadcasting of a vector against the rows of a matrix
            ms = [v for v in vs if ismat(v)]
            if len(ms) == 1 and len(vs) == 2:
                o = [v for v in vs if v is not ms[0]][0]
                if len(o) == len(ms[0][0]):
                    return [lift(f, *[(r if v is ms[0] else v) for v in vs]) for r in ms[0]]
                raise Undef
            if not ms and len(vs) == 2 and 3 in n and all(isinstance(v, list) for v in vs):
                # a column of factors and a row of coordinates (the added axes are not represented)
                c, r = (vs[0], vs[1]) if len(vs[1]) == 3 else (vs[1], vs[0])
                return [lift(f, *[(x if v is c else r) for v in vs]) for x in c]
            raise Undef
        n = n.pop()
        if any(ismat(v) for v in vs) and any(isinstance(v, list) and not ismat(v) for v in vs):
            out = []
            for i in range(n):
                out.append(lift(f, *[(v[i] if ismat(v) else v) for v in vs]))
            return out
        return [lift(f, *[(v[i] if isinstance(v, list) else v) for v in vs]) for i in range(n)]
    return f(*vs)


def add(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sparse):
            if y == 0.0:
                return x
            raise Undef
    if ismat(a) and isinstance(b, float) or ismat(b) and isinstance(a, float):
        if a == 0.0 or b == 0.0:
            return b if a == 0.0 else a
        raise Undef
    return lift(lambda x, y: x + y, a, b)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Batch):
            if isinstance(y, list) and len(y) == len(x.ms) and not ismat(y):
                return Batch([mul(m, c) for m, c in zip(x.ms, y)])
            if not isinstance(y, float):
                raise Undef
            return Batch([mul(m, y) for m in x.ms])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sparse):
            if not isinstance(y, float):
                raise Undef
            return x if y == 1.0 else Sparse([(k, mul(v, y)) for k, v in x.w])
    return lift(lambda x, y: x * y, a, b)


def power(v, e):
    def p(x):
        if e < 0 and abs(x) < 1e-9:
            raise Undef
        return x ** e
    if e == 1:
        return v
    return lift(p, v)


def matmul(a, b):
    if isinstance(a, Batch) or isinstance(b, Batch):
        if isinstance(a, Batch) and isinstance(b, Batch):
            if len(a.ms) != len(b.ms):
                raise Undef
            return Batch([matmul(x, y) for x, y in zip(a.ms, b.ms)])
        if isinstance(a, Batch):
            if isinstance(b, list) and not ismat(b):
                return [matmul(x, b) for x in a.ms]
            if ismat(b) and len(b) == len(b[0]):
                return Batch([matmul(x, b) for x in a.ms])
            if ismat(b) and len(b) == len(a.ms):
                return [matmul(x, y) for x, y in zip(a.ms, b)]
            raise Undef
        if ismat(a) and len(a) == len(a[0]):
            return Batch([matmul(a, x) for x in b.ms])
        if isinstance(a, list) and not ismat(a):
            return [matmul(a, x) for x in b.ms]
        raise Undef
    if isinstance(a, float) or isinstance(b, float):
        return mul(a, b)
    if ismat(a):
        if ismat(b):
            if len(a[0]) != len(b):
                if len(a) == len(a[0]) == len(b[0]):
                    return [matmul(a, r) for r in b]        # a map applied to a list of points
                raise Undef
            bt = list(zip(*b))
            return [[sum(x * y for x, y in zip(r, c)) for c in bt] for r in a]
        if len(a[0]) != len(b):
            raise Undef
        return [sum(x * y for x, y in zip(r, b)) for r in a]
    if ismat(b):
        if len(a) != len(b):
            raise Undef
        return [sum(x * y for x, y in zip(a, c)) for c in zip(*b)]
    if len(a) != len(b):
        raise Undef
    return sum(x * y for x, y in zip(a, b))


def rotm(ax, t):
    c, s = math.cos(t), math.sin(t)
    if ax == "x":
        return [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]
    if ax == "y":
        return [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]
    return [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]


def rotvec(v):
    if not isinstance(v, list) or len(v) != 3 or ismat(v):
        return None
    t = math.sqrt(sum(x * x for x in v))
    if t < 1e-14:
        return [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    x, y, z = [q / t for q in v]
    c, s = math.cos(t), math.sin(t)
    C = 1 - c
    return [[c + x * x * C, x * y * C - z * s, x * z * C + y * s],
            [y * x * C + z * s, c + y * y * C, y * z * C - x * s],
            [z * x * C - y * s, z * y * C + x * s, c + z * z * C]]


def euler(m, seq, i):
    if isinstance(m, float):
        if abs(m - 1) < 1e-12:
            return 0.0
        return None
    if seq != "zyx" or not ismat(m):
        return None
    if i == 1:
        return math.asin(max(-1.0, min(1.0, m[0][2])))
    if i == 0:
        return math.atan2(-m[0][1], m[0][0])
    return math.atan2(-m[1][2], m[2][2])


def cross(a, b):
    if ismat(a) or ismat(b) or len(a) != 3 or len(b) != 3:
        return None
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _int(i):
    if i is NOTHING:
        return None
    if not isinstance(i, float) or abs(i - round(i)) > 1e-9:
        raise Undef
    return int(round(i))


class Nothing:
    def __repr__(self):
        return "None"


NOTHING = Nothing()


def _k(r):
    return NOTHING if r == "None" else None


def _slice(a, b, c):
    return slice(_int(a), _int(b), _int(c))


def ismask(i):
    return isinstance(i, list) and len(i) > 0 and all(isinstance(x, bool) for x in i)


def _idx(v, *ii):
    if isinstance(v, Sparse):
        if not isinstance(ii[0], float):
            raise Undef
        r = v.get(_int(ii[0]))
        return _idx(r, *ii[1:]) if ii[1:] else r
    if not isinstance(v, list):
        return None
    i, rest = ii[0], ii[1:]
    if isinstance(i, slice):
        r = v[i]
    elif ismask(i):
        if len(i) != len(v):
            raise Undef
        r = [x for x, m in zip(v, i) if m]
    elif isinstance(i, (bool, list)) or i is NOTHING:
        return None
    else:
        return _idx(v[_int(i)], *rest) if rest else v[_int(i)]
    if rest:
        r = [_idx(x, *rest) for x in r]
        if any(x is None for x in r):
            return None
    return r


class Sparse:
    """rows written one after the other into an array of zeros whose length is not known"""

    def __init__(self, w):
        self.w = w

    def rows(self, n):
        k = max([len(x) for _, x in self.w if isinstance(x, list)] or [0])
        out = [[0.0] * k if k else 0.0 for _ in range(n)]
        for i, x in self.w:
            out[i] = x
        return out

    def get(self, i):
        for k, x in reversed(self.w):
            if k == i:
                return x
            if (k < 0) != (i < 0):
                raise Undef
        raise Undef


def _arr(*v):
    w = [len(x) for x in v if isinstance(x, list)]
    if w and not any(isinstance(x, (slice, Sparse, Batch)) for x in v):
        return [[0.0] * w[0] if isinstance(x, float) and x == 0.0 else x for x in v]
    return list(v)


def _full(v, n):
    return [v] * _int(n) if isinstance(v, float) else None


def _store(v, x, i, *rest):
    if rest:
        return None
    if v == 0.0 and isinstance(i, float):
        v = Sparse([])
    if isinstance(v, Sparse):
        if not isinstance(i, float):
            raise Undef
        return Sparse(v.w + [(_int(i), x)])
    if not isinstance(v, list):
        return None
    v = list(v)
    if isinstance(i, slice):
        ks = list(range(len(v)))[i]
    elif ismask(i):
        if len(i) != len(v):
            raise Undef
        ks = [k for k, m in enumerate(i) if m]
    elif isinstance(i, float):
        v[_int(i)] = x
        return v
    else:
        return None
    if isinstance(x, list) and len(x) == len(ks):
        for k, y in zip(ks, x):
            v[k] = y
    elif isinstance(x, float):
        for k in ks:
            v[k] = x
    else:
        return None
    return v


def _flatseq(v):
    return [y for x in v for y in _flatseq(x)] if isinstance(v, list) else [v]


def _cumsum(v):
    if not isinstance(v, list) or ismat(v):
        return None
    out, a = [], 0.0
    for x in v:
        a += x
        out.append(a)
    return out


def _append(a, b):
    return _flatseq(a) + _flatseq(b)


def _rownorms(v):
    return [_norm(r) for r in v] if ismat(v) and not isinstance(v[0][0], list) else None


def _concat(*vs):
    if not all(isinstance(v, list) for v in vs):
        return None
    return [x for v in vs for x in v]


def _sum(v):
    return sum(v) if isinstance(v, list) and not ismat(v) else None


def _searchsorted(kw, a, x=None):
    if x is None or not isinstance(a, list) or not isinstance(x, float):
        return None
    n = 0
    while n < len(a) and a[n] < x - 1e-9:
        n += 1
    return float(n)


def _flip(v):
    return list(reversed(v)) if isinstance(v, list) else None


def _squeeze(kw, v):
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v


def _boolred(f):
    return lambda v, *a: float(f(_flatseq(v))) if not a else None


def _nurb(t, pts, w):
    """rational Bezier curve"""
    if isinstance(t, list):
        return [_nurb(x, pts, w) for x in t]
    if isinstance(pts, Sparse) and isinstance(w, list):
        pts = pts.rows(len(w))
    if not ismat(pts) or not isinstance(w, list) or len(w) != len(pts):
        return None
    if t in (0.0, 1.0) and isinstance(w[int(-t)], float) and abs(w[int(-t)]) > 1e-9:
        return None if pts[int(-t)] is BOT else list(pts[int(-t)])
    h = [[c * y for c in r] + [y] for r, y in zip(pts, w)]
    while len(h) > 1:
        h = [[(1 - t) * a + t * b for a, b in zip(p, q)] for p, q in zip(h, h[1:])]
    return [x * _inv(h[0][-1]) for x in h[0][:-1]]


def _cmp(f):
    def g(a, b):
        if isinstance(a, list) and isinstance(b, float):
            return None if ismat(a) else [f(x, b) for x in a]
        if isinstance(b, list) and isinstance(a, float):
            return None if ismat(b) else [f(a, x) for x in b]
        if not isinstance(a, float) or not isinstance(b, float):
            return None
        return 1.0 if f(a, b) else 0.0
    return g


def _el(f):
    return lambda *vs: lift(lambda *x: float(f(*x)), *vs)


def _norm(v):
    if isinstance(v, float):
        return abs(v)
    if ismat(v):
        return math.sqrt(sum(x * x for r in v for x in r))
    return math.sqrt(sum(x * x for x in v))


def _inv(x):
    if abs(x) < 1e-12:
        raise Undef
    return 1.0 / x


def _matinv(m):
    if isinstance(m, float):
        return _inv(m)
    if not ismat(m) or len(m) != 3 or len(m[0]) != 3:
        return None
    a, b, c = m
    bc, ca, ab = cross(b, c), cross(c, a), cross(a, b)
    d = sum(x * y for x, y in zip(a, bc))
    if abs(d) < 1e-9:
        raise Undef
    return [[bc[i] / d, ca[i] / d, ab[i] / d] for i in range(3)]


def _linspace(a, b, n):
    if isinstance(n, list):
        return None
    n = int(round(n))
    if n < 1 or n > 500 or n == 1:
        return None
    return [add(a, mul(i / (n - 1), add(b, mul(-1.0, a)))) for i in range(n)]


def _minmax(f):
    def g(*vs):
        vs = [x for v in vs for x in (v if isinstance(v, list) else [v])]
        if any(isinstance(v, list) for v in vs) or not vs:
            return None
        return f(vs)
    return g


def _near(f):
    def g(x):
        if abs(x - round(x)) < 1e-7:
            return float(round(x))
        return float(f(x))
    return g


def _pow(a, b):
    if a < 0 and abs(b - round(b)) > 1e-12:
        raise Undef
    return a ** b


def _mod(a, b):
    if abs(b) < 1e-12:
        raise Undef
    q = a / b
    return 0.0 if abs(q - round(q)) < 1e-9 else a % b


def _atan2(y, x):
    if abs(x) < 1e-9 and abs(y) < 1e-9:
        raise Undef
    if abs(y) < 1e-12:
        y = 0.0
    return math.atan2(y, x)


def _stk(v):
    if not isinstance(v, list):
        return None
    if ismat(v) and all(isinstance(r, list) and len(r) == len(v[0]) for r in v) and not isinstance(v[0][0], list):
        return [list(r) for r in zip(*v)]
    return v if not ismat(v) else None


def _normlast(v):
    if ismat(v):
        return [_norm(r) for r in v] if not isinstance(v[0][0], list) else None
    return _norm(v)


def _interp(x, xp, fp):
    if isinstance(x, list):
        return None if ismat(x) else [_interp(y, xp, fp) for y in x]
    if not isinstance(xp, list) or not isinstance(fp, list) or len(xp) != len(fp):
        return None
    if x <= xp[0]:
        return fp[0]
    for i in range(1, len(xp)):
        if x <= xp[i]:
            t = (x - xp[i - 1]) / (xp[i] - xp[i - 1])
            return fp[i - 1] + t * (fp[i] - fp[i - 1])
    return fp[-1]


FN = {
    "sin": _el(math.sin), "cos": _el(math.cos), "tan": _el(math.tan), "arcsin": _el(math.asin),
    "arccos": _el(math.acos), "arctan": _el(math.atan), "arctan2": _el(_atan2), "sqrt": _el(math.sqrt),
    "exp": _el(math.exp), "log": _el(math.log), "sinh": _el(math.sinh), "cosh": _el(math.cosh), "tanh": _el(math.tanh),
    "abs": _el(abs), "sign": _el(lambda x: 0.0 if abs(x) < 1e-12 else math.copysign(1.0, x)),
    "floor": _el(_near(math.floor)), "ceil": _el(_near(math.ceil)), "round": _el(round), "int": _el(_near(math.trunc)),
    "inv": _el(_inv), "inv~": _el(lambda x: float(~int(x))), "pow": _el(_pow), "mod": _el(_mod),
    "floordiv": _el(lambda a, b: float(_near(math.floor)(a / b))),
    "maximum": _el(max), "minimum": _el(min), "max": _minmax(max), "min": _minmax(min),
    "norm": _norm, "mul": mul, "emul": mul, "matmul": matmul, "dot": matmul, "cross": cross,
    "arr": _arr, "tup": lambda *v: list(v), "idx": _idx, "rotvec": rotvec, "euler": euler, "matinv": _matinv,
    "stk-1": _stk, "norm-1": _normlast, "linspace": _linspace, "interp": _interp, "eye": None,
    "cmpLt": _cmp(lambda a, b: a < b - 1e-12), "cmpGt": _cmp(lambda a, b: a > b + 1e-12),
    "cmpLtE": _cmp(lambda a, b: a <= b + 1e-12), "cmpGtE": _cmp(lambda a, b: a >= b - 1e-12),
    "cmpEq": _cmp(lambda a, b: abs(a - b) < 1e-9), "cmpNotEq": _cmp(lambda a, b: abs(a - b) >= 1e-9),
    "and": lambda *v: float(all(truth(x) for x in v)), "or": lambda *v: float(any(truth(x) for x in v)),
    "not": lambda v: float(not truth(v)),
    "k": _k, "slice": _slice, "store": _store, "full": _full, "cumsum": _cumsum, "appendNone": _append, "norm1": _rownorms,
    "concat0": _concat, "sum": _sum, "searchsorted": _searchsorted, "flipNone": _flip, "flip0": _flip, "squeeze": _squeeze,
    "any": _boolred(any), "all": _boolred(all), "nurb": _nurb,
    "len": lambda v: float(len(v)) if isinstance(v, list) else None,
    "sumseq": lambda v: sum(v) if isinstance(v, list) and not ismat(v) else None,
}


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, list) or isinstance(b, list):
        m, s = (a, b) if isinstance(a, list) else (b, a)
        if ismat(m):
            return all(close(m[i][j], s if i == j else 0.0) for i in range(len(m)) for j in range(len(m[0])))
        return all(close(x, s) for x in m)
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


_models = []


def models(n=NS):
    while len(_models) < n:
        _models.append(Model(len(_models)))
    return _models[:n]


def run(m, t, over=None):
    """(value, unknown parts used)"""
    m.opaque = set()
    m.over = over
    saved, m.memo = m.memo, {}
    try:
        v = m.ev(t)
    except (TypeError, AttributeError, ValueError, OverflowError, IndexError, ZeroDivisionError):
        raise Undef
    finally:
        m.memo = saved
        m.over = None
    o, m.opaque = m.opaque, None
    return v, o


def eq(a, b, n=NS):
    if a is None or b is None:
        return None
    if a == b:
        return True
    seen = diffs = 0
    for m in models(3 * n):
        try:
            va, oa = run(m, a)
            vb, ob = run(m, b)
        except (Undef, RecursionError):
            continue
        if not close(va, vb):
            if oa != ob:
                return None
            diffs += 1
            if diffs >= 2:
                return False
            continue
        seen += 1
        if seen >= n and not diffs:
            return True
    return True if seen and not diffs else None


def invariant(t, change, expect, n=NS):
    """does the value respond to a change of the inputs as expected?
    change(model) -> over function; expect(model, value) -> value"""
    if t is None:
        return None
    seen = diffs = 0
    for m in models(3 * n):
        try:
            va, oa = run(m, t)
            vb, ob = run(m, t, change(m))
            we = expect(m, va)
        except (Undef, RecursionError):
            continue
        if not close(we, vb):
            if oa != ob:
                return None
            diffs += 1
            if diffs >= 2:
                return False
            continue
        seen += 1
        if seen >= n and not diffs:
            return True
    return True if seen and not diffs else None


def motion(m):
    """a random rigid motion of the model (rotation matrix, translation)"""
    return m.mat_in(("motion",), True), m.vec_in(("motion",))


def rigid(points=(), frames=(), vectors=()):
    """change of the inputs by a rigid motion: labels (suffixes) of points, frames and direction vectors"""
    def change(m):
        R, d = motion(m)

        def over(lab, v):
            if any(lab.endswith(x) for x in frames) and ismat(v):
                return matmul(R, v)
            if any(lab.endswith(x) for x in points) and isinstance(v, list):
                return add(matmul(R, v), d)
            if any(lab.endswith(x) for x in vectors) and isinstance(v, list):
                return matmul(R, v)
            return v
        return over
    return change


def as_point(m, v):
    R, d = motion(m)
    return add(matmul(R, v), d)


def as_frame(m, v):
    R, d = motion(m)
    return R if isinstance(v, float) and v == 1.0 else matmul(R, v)


def as_vector(m, v):
    R, d = motion(m)
    return matmul(R, v)


def as_is(m, v):
    return v


def scaling(lengths, lam=1.7):
    def change(m):
        def over(lab, v):
            return mul(lam, v) if any(lab.endswith(x) for x in lengths) else v
        return over
    return change


def times(k, lam=1.7):
    return lambda m, v: mul(lam ** k, v)


def is_zero(t, n=NS):
    return eq(t, T.ZERO, n)


def value(t, i=0):
    try:
        return run(models(i + 1)[i], t)[0]
    except (Undef, RecursionError):
        return None
