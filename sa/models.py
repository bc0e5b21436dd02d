"""Models of builtins and generic object behaviour (containers, arrays, copying)."""
import ast
import math
from . import domains as D
from . import terms as T
from .domains import Num, Bad, Z, NODEPS, num_const, n_join
from .values import *
from . import interp as _I

# ---------------------------------------------------------------- signs
POS = set()       # scalar atoms known positive
NONZ = set()      # scalar atoms known nonzero
NONNEG_APPS = {"abs", "norm", "sqrt", "exp"}


def _atom_sign(a):
    if a in POS:
        return "+"
    k = T.atom_key(a)
    if k[0] == "app":
        if k[1] in NONNEG_APPS:
            if k[1] == "abs":
                s = sign_term(k[2])
                if s in ("+", "-", "nz"):
                    return "+"
            return ">=0"
        if k[1] in ("sign", "float", "int"):
            s = sign_term(k[2])
            if s in ("+", "-", "nz", "0"):
                return s if k[1] != "int" else None
        if k[1] == "sqrt" and sign_term(k[2]) == "+":
            return "+"
        if k[1] in ("sin", "tan") and a in NONZ:
            return "nz"
    if a in NONZ:
        return "nz"
    return None


def _mono_sign(m, c):
    s = "+" if c > 0 else "-"
    for a, e in m:
        q = _atom_sign(a)
        if q is None:
            if e % 2 == 0:
                q = ">=0"
            else:
                return None
        elif e % 2 == 0 and q in ("-", "nz"):
            q = "+"
        if q == ">=0" and e < 0:
            q = "+"
        s = _smul(s, q)
        if s is None:
            return None
    return s


def _smul(a, b):
    if a is None or b is None:
        return None
    if "nz" in (a, b):
        o = b if a == "nz" else a
        return "nz" if o in ("+", "-", "nz") else None
    neg = (a in ("-", "<=0")) != (b in ("-", "<=0"))
    weak = a in (">=0", "<=0") or b in (">=0", "<=0")
    return ("<=0" if neg else ">=0") if weak else ("-" if neg else "+")


def sign_term(t):
    if t is None:
        return None
    if t == T.ZERO:
        return "0"
    if not isinstance(t, tuple) or not t or not isinstance(t[0], tuple):
        return None
    res = None
    for (w, m), c in t:
        if w:
            return None
        s = _mono_sign(m, c)
        if s is None:
            return None
        if res is None:
            res = s
        elif "nz" in (s, res):
            return None
        elif (s in ("+", ">=0")) != (res in ("+", ">=0")):
            return None
        else:
            res = s if s in ("+", "-") else res
    return res


def sign_of(n):
    if n.const is not None:
        return "0" if n.const == 0 else ("+" if n.const > 0 else "-")
    return sign_term(n.term)


# ---------------------------------------------------------------- sorted ranges
def span_of(n):
    """(first, last, sorted) of a 1-D array whose extreme entries are known"""
    if n.extra is not None and n.extra[0] == "span":
        return n.extra[1:]
    if n.elems and len(n.elems) >= 2:
        for a, b in zip(n.elems, n.elems[1:]):
            if not nonneg_diff(a, b):
                return None
        return n.elems[0], n.elems[-1], True
    return None


def nonneg_diff(a, b):
    if a.term is None or b.term is None:
        return False
    return sign_term(T.sub(b.term, a.term)) in ("+", ">=0", "0")


def span_union(spans):
    if any(s is None for s in spans):
        return None
    f, l = spans[0][0], spans[0][1]
    for s in spans[1:]:
        if s[0].term != f.term or s[1].term != l.term or f.term is None or l.term is None:
            return None
    return f, l, False


# ---------------------------------------------------------------- conversion
def mk(n):
    if n.shape == ():
        return n
    return Arr(n)


def term_of(v, depth=4):
    if isinstance(v, Num):
        return v.term
    if isinstance(v, Arr):
        return v.n.term
    if isinstance(v, (ExtObj, Unknown)):
        return v.n.term if v.n is not None else None
    if isinstance(v, TupleV):
        ts = [term_of(x, depth - 1) for x in v.items]
        return None if any(x is None for x in ts) else T.app("tup", *ts)
    if isinstance(v, ListV):
        if v.items is not None:
            ts = [term_of(x, depth - 1) for x in v.items]
            return None if any(x is None for x in ts) else T.app("tup", *ts)
        e = term_of(v.elem, depth - 1) if v.elem is not None else T.ZERO
        return None if e is None else T.app("seq", e)
    if isinstance(v, Const):
        return T.app("k", repr(v.v)) if isinstance(v.v, (str, type(None))) else None
    if isinstance(v, Ext):
        return T.app("ext", v.path)
    if isinstance(v, EnumM):
        return T.app("enum", v.cls.name, v.name)
    if isinstance(v, SliceV):
        ts = [T.app("k", "None") if x is None else term_of(x) for x in (v.lo, v.hi, v.step)]
        return None if any(x is None for x in ts) else T.app("slice", *ts)
    if isinstance(v, Instance) and depth > 0 and v.cls.dc:
        ts = []
        for k, _ in v.cls.dc:
            x = v.d.get(k)
            t = term_of(x, depth - 1) if x is not None else None
            if t is None:
                return None
            ts.append(t)
        return T.app("inst", v.cls.name, *ts)
    if isinstance(v, DictV) and depth > 0:
        ts = []
        for k in sorted(v.d, key=str):
            t = term_of(v.d[k], depth - 1)
            if t is None:
                return None
            ts.append(T.app("kv", repr(k), t))
        return T.app("dict", *ts)
    return None


def assemble(nums, newaxis=True):
    """array built from the given rows/elements"""
    if not nums:
        n = D.num_const(0.0)
        return n.with_(const=None, shape=(0,), elems=[], term=T.app_t("arr"))
    deps = NODEPS
    for x in nums:
        deps = deps | x.deps
    n0 = nums[0]
    sh = n0.shape
    for x in nums[1:]:
        if x.shape != sh:
            if sh is not None and x.shape is not None and len(sh) == len(x.shape):
                sh = tuple(p if p == q else None for p, q in zip(sh, x.shape))
            else:
                sh = None
    shape = None if sh is None else (len(nums),) + tuple(sh)
    dim, rot, wt, ang = merge_facts(nums)
    scal = sh == ()
    if scal and (rot == "C" or (isinstance(rot, tuple))):
        if isinstance(rot, tuple) or rot == "C":
            rot = None
    if scal and rot is None:
        # three coordinates of one world vector put back together
        pass
    elems = list(nums) if scal and len(nums) <= 24 else None
    ts = [x.term for x in nums]
    if any(t is None for t in ts):
        term = None
    elif scal and len(nums) == 3:
        term = T.vec3(ts)
    elif all(t == T.ZERO for t in ts):
        term = T.ZERO
    else:
        term = T.app_t("arr", *ts)
        if len(nums) == 3 and sh == (3,):
            b = [T.comp3(t, 0) for t in ts]
            cols = [[T.comp3(t, i) for i in range(3)] for t in ts]
            if all(c is not None for r in cols for c in r):
                if all(T.is_const(cols[i][j]) == (1.0 if i == j else 0.0) for i in range(3) for j in range(3)):
                    term = T.ONE
    return Num(None, shape, elems, deps, dim, rot, wt, ang, term, all(x.isint for x in nums))


def merge_facts(nums):
    """common facts of the parts of one array; disagreement means unknown, a Bad part makes the whole Bad"""
    dim = Z
    for x in nums:
        d = x.dim
        if isinstance(d, Bad):
            dim = d
            break
        if d is None or dim is None:
            dim = None
        elif dim == Z:
            dim = d
        elif d != Z and abs(d - dim) > 1e-9:
            dim = None
    rot, wt = Z, T.ZERO
    for x in nums:
        r = x.rot
        if isinstance(r, Bad):
            rot = r
            break
        if r is None or rot is None:
            rot = None
        elif rot == Z:
            rot, wt = r, x.wt
        elif r == Z:
            if rot == "V" and wt != T.ZERO:
                wt = None
        elif r != rot:
            rot = None
        elif x.wt != wt:
            wt = None
    ang = "P"
    for x in nums:
        a = x.ang
        if isinstance(a, Bad):
            ang = a
            break
        if a is None or ang is None:
            ang = None
        elif ang == "P":
            ang = a
        elif a != "P" and a != ang:
            ca, cb = D.ang_class(a), D.ang_class(ang)
            ang = (1.0 if ca == "rad" else D.DEG) if ca and ca == cb else None
    return dim, rot, wt, ang


def to_n(I, v):
    if isinstance(v, Num):
        return v
    if isinstance(v, Arr):
        return v.n
    if isinstance(v, (Unknown, ExtObj)):
        return v.n if v.n is not None else D.unknown()
    if isinstance(v, TupleV):
        return assemble([to_n(I, x) for x in v.items])
    if isinstance(v, ListV):
        if v.items is not None:
            return assemble([to_n(I, x) for x in v.items])
        if v.elem is None:
            return assemble([])
        e = to_n(I, v.elem)
        return e.with_(const=None, elems=None, shape=None if e.shape is None else (None,) + tuple(e.shape),
                       term=None if e.term is None else T.app_t("seq", e.term))
    if isinstance(v, Union):
        ns = [to_n(I, a) for a in v.alts]
        r = ns[0]
        for n in ns[1:]:
            r = n_join(r, n, v.cond)
        return r
    if isinstance(v, _I.StarV):
        return to_n(I, v.elem)
    return D.unknown(deps_of(v))


def not_num(n):
    t = n.term
    return Num(None, n.shape, None, n.deps, n.dim if isinstance(n.dim, Bad) else 0,
               n.rot if isinstance(n.rot, Bad) else n.rot, T.ZERO, n.ang if isinstance(n.ang, Bad) else D.N1,
               None if t is None else _neg_bool(t))


def _neg_bool(t):
    if len(t) == 1 and t[0][0][0] == () and len(t[0][0][1]) == 1 and t[0][1] == 1.0:
        a, e = t[0][0][1][0]
        k = T.atom_key(a)
        if k[0] == "app" and k[1] == "not":
            return k[2]
        inv = {"cmpLt": "cmpGtE", "cmpGtE": "cmpLt", "cmpGt": "cmpLtE", "cmpLtE": "cmpGt", "cmpEq": "cmpNotEq",
               "cmpNotEq": "cmpEq"}
        if k[0] == "app" and k[1] in inv:
            return T.app(inv[k[1]], *k[2:])
    return T.app("not", t)


# ---------------------------------------------------------------- lists, dicts
def mklist(I, items):
    if any(isinstance(x, _I.StarV) for x in items):
        vals = [x.elem if isinstance(x, _I.StarV) else x for x in items]
        vals = [x for x in vals if x is not None]
        l = ListV(None, I.join_all(vals) if vals else None)
    else:
        l = ListV(items)
    l.site = I.where()
    return l


def list_append(I, l, v):
    it = l.items
    if it is not None and not isinstance(v, _I.StarV):
        if len(it) < 400:
            I.write(l.d, "items", it + (v,))
            return
    to_summary(I, l)
    v = v.elem if isinstance(v, _I.StarV) else v
    e = l.elem
    I.write(l.d, "items", Summ(v if e is None else I.join(e, v)))


def to_summary(I, l):
    it = l.items
    if it is not None:
        I.write(l.d, "items", Summ(I.join_all(list(it)) if it else None))


def list_extend(I, l, v):
    if isinstance(v, Union):
        v = merge_lists(I, v)
    kind, data, c = iterate(I, v)
    if kind == "known":
        if l.items is not None:
            I.write(l.d, "items", l.items + tuple(data))
        else:
            for x in data:
                list_append(I, l, x)
    else:
        to_summary(I, l)
        if data is not None:
            e = l.elem
            I.write(l.d, "items", Summ(data if e is None else I.join(e, data)))


def merge_lists(I, u):
    elems = []
    for a in u.alts:
        kind, data, c = iterate(I, a)
        if kind == "known":
            elems.extend(data)
        elif data is not None:
            elems.append(data)
    return ListV(None, I.join_all(elems, u.cond) if elems else None)


def list_join_fix(I, a, b, cond):
    """lists are joined cellwise by the interpreter; differing 'items' tuples arrive here as Union"""


def dkey(v):
    if isinstance(v, Const) and isinstance(v.v, (str, type(None))):
        return v.v if v.v is not None else "<None>"
    if isinstance(v, Num) and v.const is not None:
        return v.const
    if isinstance(v, EnumM):
        return "enum:" + v.cls.name + "." + v.name
    if isinstance(v, TupleV):
        ks = tuple(dkey(x) for x in v.items)
        return None if any(k is None for k in ks) else ks
    if isinstance(v, ClassV):
        return "class:" + v.name
    return None


def memo_key(args, kw):
    ks = []
    for v in list(args) + [kw[k] for k in sorted(kw)]:
        if isinstance(v, Num):
            if v.term is None:
                return None
            ks.append(v.term)
        elif isinstance(v, V):
            ks.append(v.uid)
        elif isinstance(v, Const):
            ks.append(repr(v.v))
        else:
            return None
    return tuple(ks)


def iterate(I, v):
    """('known', [values], None) or ('summary', element, condNum)"""
    if isinstance(v, TupleV):
        return "known", list(v.items), None
    if isinstance(v, ListV):
        if isinstance(v.items, tuple):
            return "known", list(v.items), None
        e = v.elem
        if e is None:
            return "known", [], None
        return "summary", e, I.boolnum(deps_of(v))
    if isinstance(v, DictV):
        if UNK in v.d:
            return "summary", Unknown(), I.boolnum()
        return "known", [I.const(k) if isinstance(k, (str, int, float)) else Unknown() for k in list(v.d)], None
    if isinstance(v, Arr):
        n = v.n
        if n.shape is not None and len(n.shape) > 0 and isinstance(n.shape[0], int) and n.shape[0] <= 32 \
                and (n.elems or n.shape[0] <= 8):
            return "known", [getitem(I, v, num_const(i)) for i in range(n.shape[0])], None
        e = index_n(I, n, [D.Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, D.fresh_term("i"), True)])
        base = (v,)
        return "summary", (e if e.shape == () else Arr(e, base)), I.boolnum(NODEPS)
    if isinstance(v, Instance):
        m, _ = v.cls.lookup("__iter__")
        if m is not None:
            return iterate(I, I.call(Bound(v, m), [], {}))
        m, _ = v.cls.lookup("__getitem__")
        if m is not None:
            i = D.Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, D.fresh_term("i"), True)
            return "summary", I.call(Bound(v, m), [i], {}), I.boolnum()
        if not v.cls.ext:
            I.problem("iter", "'%s' object is not iterable" % v.cls.name)
            I.exit_to("raise", NONE)
    if isinstance(v, Const) and isinstance(v.v, str):
        return "known", [Const(c) for c in v.v[:16]], None
    if isinstance(v, ClassV) and v.enum:
        return "known", [x for x in v.d.values() if isinstance(x, EnumM)], None
    if isinstance(v, ExtObj) and "range" in v.a:
        e = v.a["range"]
        return "summary", e, I.boolnum(e.deps)
    if isinstance(v, ExtObj) and "elem" in v.a:
        return "summary", v.a["elem"], I.boolnum(v.n.deps)
    if isinstance(v, ExtObj) and v.n is not None:
        return "summary", ExtObj(v.cls, v.n.with_(term=None if v.n.term is None else T.app("it", v.n.term))), I.boolnum(v.n.deps)
    return "summary", Unknown(deps_of(v)), I.boolnum(deps_of(v))


def unpack(I, v, n, elts=None):
    star = None
    if elts is not None:
        for i, t in enumerate(elts):
            if isinstance(t, ast.Starred):
                star = i
    kind, data, c = iterate(I, v)
    if kind == "known":
        if star is not None:
            k = len(data) - (n - 1)
            return list(data[:star]) + [ListV(data[star:star + k])] + list(data[star + k:])
        if len(data) != n:
            I.problem("unpack", "cannot unpack %d values into %d targets" % (len(data), n))
            I.exit_to("raise", NONE)
        return data
    if isinstance(v, Arr):
        return [getitem(I, v, num_const(i)) for i in range(n)]
    if isinstance(data, Unknown) or isinstance(v, Unknown):
        return [I.unk(v) for _ in range(n)]
    return [data] * n


# ---------------------------------------------------------------- indexing
def is_none(v):
    return isinstance(v, Const) and v.v is None


def index_n(I, n, idx):
    """facts of n[idx...]; idx: list of index values"""
    deps = n.deps
    for i in idx:
        deps = deps | deps_of(i)
        if isinstance(i, SliceV):
            for q in (i.lo, i.hi, i.step):
                if q is not None:
                    deps = deps | deps_of(q)
    # simple integer index with known element facts
    if len(idx) == 1 and isinstance(idx[0], Num) and idx[0].const is not None and n.elems is not None \
            and not isinstance(idx[0].const, bool):
        k = int(idx[0].const)
        if -len(n.elems) <= k < len(n.elems):
            e = n.elems[k]
            return e.with_(deps=e.deps | idx[0].deps) if idx[0].deps else e
    if len(idx) == 1 and isinstance(idx[0], Num) and idx[0].const in (0, -1) and n.extra is not None and n.extra[0] == "span" \
            and n.extra[3]:
        e = n.extra[1 if idx[0].const == 0 else 2]
        return e.with_(deps=n.deps | e.deps)
    shape = n.shape
    ell = [i for i, x in enumerate(idx) if isinstance(x, Const) and x.v is Ellipsis]
    if ell and shape is not None:
        used = sum(1 for x in idx if not is_none(x) and not (isinstance(x, Const) and x.v is Ellipsis))
        k = ell[0]
        idx = idx[:k] + [SliceV(None, None, None)] * max(0, len(shape) - used) + idx[k + 1:]
    nd = None if shape is None else len(shape)
    out = []
    ax = 0
    axes = []       # per consumed axis: 'int','slice','arr'
    unknown = shape is None
    rot = n.rot
    for x in idx:
        if is_none(x):
            out.append(1)
            axes.append("new")
            continue
        cur = shape[ax] if (not unknown and ax < nd) else None
        if isinstance(x, SliceV):
            axes.append("slice" if not (x.lo is None and x.hi is None and (x.step is None)) else "full")
            out.append(_slen(cur, x))
        elif isinstance(x, Num) and x.shape == ():
            axes.append("int")
        elif isinstance(x, (Arr, ListV, TupleV)):
            axes.append("arr")
            xn = to_n(I, x)
            out.append(xn.shape[0] if xn.shape is not None and len(xn.shape) == 1 and xn.isint else None)
        else:
            axes.append("unk")
            unknown = True
        ax += 1
    if not unknown:
        out.extend(shape[ax:])
    newshape = None if unknown else tuple(out)
    rk, wt = rot, n.wt
    if rot in ("V", "F", "Ft", "G"):
        cons = [a for a in axes if a != "new"]
        if nd is None:
            if rot == "V" and axes and axes[0] in ("int",) and len(cons) == 1:
                rk = None
            elif all(a in ("full", "new") for a in axes):
                rk = rot
            else:
                rk = None
        else:
            last = nd - 1
            a_last = cons[last] if len(cons) > last else "full"
            a_first = cons[0] if cons else "full"
            if rot == "V":
                if a_last in ("full",):
                    rk = "V"
                    if axes and axes[-1] == "new":
                        rk = None
                elif a_last in ("int", "slice"):
                    rk = "C"
                else:
                    rk = None
            elif rot == "F" and nd == 2:
                if a_first == "full":
                    rk = "V" if a_last == "int" else ("F" if a_last == "full" else None)
                    wt = T.ZERO
                elif a_first in ("int", "slice"):
                    rk = "C"
                else:
                    rk = None
            elif rot == "Ft" and nd == 2:
                if a_last == "full":
                    rk = "V" if a_first == "int" else "Ft"
                elif a_last in ("int", "slice"):
                    rk = "C"
                else:
                    rk = None
            else:
                rk = None
    # term
    t = None
    if n.term is not None:
        if all(a in ("full",) for a in axes):
            t = n.term
        elif len(idx) == 1 and axes == ["int"] and nd == 1:
            k = idx[0].const
            c = T.comp3(n.term, int(k)) if (k is not None and shape == (3,) and -3 <= k < 3) else None
            if c is None and k is not None and shape == (3,) and -3 <= k < 3:
                c = T.app("idx", n.term, T.const(int(k) % 3))
            if c is None and idx[0].term is not None:
                c = T.app("idx", n.term, idx[0].term)
            if c is None:
                c = None
            t = c
            if k is not None and k < 0 and t is None:
                t = T.app("idx", n.term, T.const(k))
        elif axes == ["full", "int"] and shape == (3, 3) and idx[1].const is not None:
            t = T.matmul(n.term, T.E3[int(idx[1].const) % 3])
        elif axes == ["int"] and shape == (3, 3) and idx[0].const is not None:
            t = T.matmul(T.transpose(n.term), T.E3[int(idx[0].const) % 3])
        elif all(a in ("full", "new") for a in axes):
            t = n.term if not unknown else n.term
        else:
            its = []
            for x in idx:
                its.append(term_of(x))
            if all(q is not None for q in its):
                t = (T.app if newshape == () else T.app_t)("idx", n.term, *its)
    zc = n.const if (n.const is not None and n.rot == Z) else None
    elems = None
    if axes == ["slice"] and n.elems is not None and isinstance(idx[0], SliceV):
        s = idx[0]
        try:
            f = lambda q: None if q is None else int(q.const)
            elems = n.elems[slice(f(s.lo), f(s.hi), f(s.step))]
            newshape = (len(elems),)
            r = assemble(elems)
            if rk == "C":
                r = r.with_(rot="C")
            return r.with_(deps=deps)
        except Exception:
            elems = None
    if axes and all(a in ("full", "new") for a in axes) and n.elems and newshape is not None and len(newshape) == 1:
        elems = n.elems
    dim, ang = n.dim, n.ang
    for x in idx:
        if isinstance(x, (Num, Arr)):
            xn = x if isinstance(x, Num) else x.n
            for nm, val in (("dim", xn.dim), ("rot", xn.rot), ("ang", xn.ang)):
                if isinstance(val, Bad):
                    if nm == "dim":
                        dim = val
                    elif nm == "rot":
                        rk = val
                    else:
                        ang = val
    return Num(zc, newshape, elems, deps, dim, rk, wt, ang, t, n.isint)


def _slen(cur, s):
    try:
        f = lambda q: None if q is None else int(q.const)
        if cur is None:
            if s.lo is None and s.hi is None:
                return None
            return None
        return len(range(*slice(f(s.lo), f(s.hi), f(s.step)).indices(cur)))
    except Exception:
        return None


def getitem(I, o, i):
    if isinstance(o, Union):
        return I.fork_union(o, lambda a: getitem(I, a, i))
    if isinstance(i, Union):
        return I.fork_union(i, lambda a: getitem(I, o, a))
    if isinstance(o, Instance):
        m, _ = o.cls.lookup("__getitem__")
        if m is not None:
            return I.call(Bound(o, m), [i], {})
        if not o.cls.ext:
            I.problem("item", "'%s' object is not subscriptable" % o.cls.name)
            I.exit_to("raise", NONE)
        return I.unk(o)
    if isinstance(o, (TupleV, ListV)):
        items = o.items
        if not isinstance(items, tuple):
            kind, e, c = iterate(I, o)
            if kind == "known":
                items = tuple(e)
            else:
                if isinstance(i, SliceV):
                    return ListV(None, e)
                return e if e is not None else Unknown()
        if isinstance(i, Num):
            if i.const is not None:
                k = int(i.const)
                if -len(items) <= k < len(items):
                    return items[k]
                I.problem("index", "sequence index %d out of range (length %d)" % (k, len(items)))
                I.exit_to("raise", NONE)
            if not items:
                return I.unk(i)
            if 1 < len(items) <= 8 and i.term is not None and all(isinstance(x, Instance) for x in items) \
                    and len(set(map(id, items))) == len(items):
                eq = [I.M.compare(I, "Eq", i, D.num_const(k)) for k in range(len(items))]
                if all(isinstance(c, Num) for c in eq):
                    return Union(list(items), I.boolnum(i.deps), eq)
            return I.join_all(list(items), I.boolnum(i.deps)) if len(items) > 1 else items[0]
        if isinstance(i, SliceV):
            try:
                f = lambda q: None if (q is None or is_none(q)) else int(q.const)
                r = items[slice(f(i.lo), f(i.hi), f(i.step))]
                if isinstance(o, TupleV):
                    return TupleV(r)
                l = ListV(r)
                l.site = I.where()
                return l
            except Exception:
                dp = NODEPS
                for q in (i.lo, i.hi):
                    if q is not None:
                        dp = dp | deps_of(q)
                l = ListV(None, I.join_all(list(items), I.boolnum(dp)) if items else None)
                l.site = I.where()
                return l
        return I.unk(o, i)
    if isinstance(o, DictV):
        k = dkey(i)
        if k is not None:
            if k in o.d:
                return o.d[k]
            if UNK in o.d:
                return o.d[UNK]
            I.problem("key", "dictionary has no key %r" % (k,))
            I.exit_to("raise", NONE)
        vals = list(o.d.values())
        if vals:
            return I.join_all(vals, I.boolnum(deps_of(i)))
        return I.unk(o, i)
    if isinstance(o, (Arr, Num)):
        n = o.n if isinstance(o, Arr) else o
        idx = list(i.items) if isinstance(i, TupleV) else [i]
        r = index_n(I, n, idx)
        if r.shape == ():
            return r
        fancy = any(isinstance(x, (Arr, ListV)) for x in idx)
        return Arr(r, (o,) if isinstance(o, Arr) and not fancy else ())
    if isinstance(o, Const) and isinstance(o.v, str):
        if isinstance(i, Num) and i.const is not None:
            try:
                return Const(o.v[int(i.const)])
            except Exception:
                return Const("?")
        return Const("?")
    if isinstance(o, ExtObj):
        if "elem" in o.a:
            return o.a["elem"]
        if o.n is not None:
            it = term_of(i)
            return ExtObj(o.cls, o.n.with_(deps=o.n.deps | deps_of(i), elems=None, const=None,
                                           term=T.app_t("item", o.n.term, it) if it is not None and o.n.term is not None else None))
        return I.unk(o, i)
    if isinstance(o, (Ext, ClassV)):
        return o
    if isinstance(o, Const) and o.v is None:
        I.exit_to("raise", NONE)
    return I.unk(o, i)


def arr_store(I, arr, n, strong=False):
    """whole-array in-place update"""
    roots = arr.roots()
    I.write(arr.d, "n", n)
    for r in roots:
        if r is not arr:
            if strong and len(roots) == 1 and arr.bases and arr.bases[0].n.shape == n.shape:
                I.write(r.d, "n", n)
            else:
                I.write(r.d, "n", merge_store(r.n, n, None))
    st = list(arr.bases)
    while st:
        b = st.pop()
        if b.bases:
            I.write(b.d, "n", merge_store(b.n, n, None))
            st.extend(b.bases)


def merge_store(old, val, idx_terms):
    dim, rot, wt, ang = merge_facts([old, val]) if old.rot != Z or old.dim != Z else (val.dim, val.rot, val.wt, val.ang)
    t = None
    if idx_terms is not None and old.term is not None and val.term is not None and all(x is not None for x in idx_terms):
        ot = old.term
        if old.shape and isinstance(old.shape[0], int) and ot in (T.ZERO, T.ONE):
            ot = T.app_t("full", ot, T.const(old.shape[0]))
        t = T.app_t("store", ot, val.term, *idx_terms)
    else:
        t = D.fresh_term("st", True)
    if rot == "V" and old.rot == Z:
        pass
    return Num(None, old.shape, None, old.deps | val.deps, dim, rot, wt, ang, t, old.isint and val.isint)


def setitem(I, o, i, v):
    if isinstance(o, Union):
        return I.fork_union(o, lambda a: setitem(I, a, i, v))
    if isinstance(o, Instance):
        m, _ = o.cls.lookup("__setitem__")
        if m is not None:
            I.call(Bound(o, m), [i, v], {})
            return
        if not o.cls.ext:
            I.problem("item", "'%s' object does not support item assignment" % o.cls.name)
            I.exit_to("raise", NONE)
        return
    if isinstance(o, ListV):
        items = o.items
        if isinstance(items, tuple) and isinstance(i, Num) and i.const is not None:
            k = int(i.const)
            if -len(items) <= k < len(items):
                l = list(items)
                l[k] = v
                I.write(o.d, "items", tuple(l))
                return
            I.exit_to("raise", NONE)
        if isinstance(items, tuple) and isinstance(i, SliceV) and isinstance(v, (ListV, TupleV)):
            kind, data, c = iterate(I, v)
            try:
                f = lambda q: None if (q is None or is_none(q)) else int(q.const)
                l = list(items)
                l[slice(f(i.lo), f(i.hi), f(i.step))] = data
                if kind == "known":
                    I.write(o.d, "items", tuple(l))
                    return
            except Exception:
                pass
        if isinstance(items, tuple) and isinstance(i, Num):
            c = I.boolnum(i.deps)
            I.write(o.d, "items", tuple(I.join(x, v, c) for x in items))
            return
        to_summary(I, o)
        e = o.elem
        I.write(o.d, "items", Summ(v if e is None else I.join(e, v)))
        return
    if isinstance(o, DictV):
        k = dkey(i)
        if k is None:
            k = UNK
            I.write(o.d, k, I.join(o.d[k], v) if k in o.d else v)
            for kk in list(o.d):
                if kk != UNK:
                    I.write(o.d, kk, I.join(o.d[kk], v, I.boolnum(deps_of(i))))
        else:
            I.write(o.d, k, v)
        return
    if isinstance(o, Arr):
        n = o.n
        vn = to_n(I, v)
        idx = list(i.items) if isinstance(i, TupleV) else [i]
        full = all(isinstance(x, SliceV) and x.lo is None and x.hi is None for x in idx) or \
            (len(idx) == 1 and isinstance(idx[0], Const) and idx[0].v is Ellipsis)
        if full:
            arr_store(I, o, vn.with_(shape=n.shape, elems=vn.elems if vn.shape == n.shape else None, const=None), True)
            return
        extra = NODEPS
        for x in idx:
            extra = extra | deps_of(x)
        new = None
        if len(idx) == 1 and isinstance(idx[0], Num) and idx[0].const is not None and n.shape is not None \
                and (len(n.shape) == 1 or len(n.shape) == 2 and vn.shape == n.shape[1:] and isinstance(n.shape[1], int)):
            k = int(idx[0].const)
            el = n.elems
            if el is None and isinstance(n.shape[0], int) and n.shape[0] <= 24 and n.rot == Z:
                el = [num_const(0.0) if len(n.shape) == 1 else num_const(0.0).with_(shape=n.shape[1:], const=None)] * n.shape[0]
            if el is not None and -len(el) <= k < len(el):
                el = list(el)
                el[k] = vn
                new = assemble(el).with_(deps=n.deps | vn.deps | extra)
            else:
                dim, rot, wt, ang = merge_facts([n, vn])
                t = merge_store(n, vn, [T.const(k)]).term
                new = Num(None, n.shape, None, n.deps | vn.deps | extra, dim, rot, wt, ang, t, n.isint)
        if new is None:
            new = merge_store(n, vn, [term_of(x) for x in idx])
            if extra:
                new = new.with_(deps=new.deps | extra)
        arr_store(I, o, new)
        return
    if isinstance(o, TupleV) or isinstance(o, Num):
        I.problem("item", "item assignment on an immutable value")
        return


def delitem(I, o, i):
    if isinstance(o, Union):
        return I.fork_union(o, lambda a: delitem(I, a, i))
    if isinstance(o, Instance):
        m, _ = o.cls.lookup("__delitem__")
        if m is not None:
            I.call(Bound(o, m), [i], {})
        return
    if isinstance(o, DictV):
        k = dkey(i)
        if k is not None:
            I.delete(o.d, k)
        return
    if isinstance(o, ListV):
        items = o.items
        if isinstance(items, tuple) and isinstance(i, Num) and i.const is not None:
            l = list(items)
            try:
                del l[int(i.const)]
                I.write(o.d, "items", tuple(l))
                return
            except Exception:
                pass
        if isinstance(items, tuple) and isinstance(i, SliceV):
            try:
                f = lambda q: None if (q is None or is_none(q)) else int(q.const)
                l = list(items)
                del l[slice(f(i.lo), f(i.hi), f(i.step))]
                I.write(o.d, "items", tuple(l))
                return
            except Exception:
                pass
        to_summary(I, o)


# ---------------------------------------------------------------- compare / binop
def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = None
        if is_none(a) or is_none(b):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return I.boolnum(deps_of(a) | deps_of(b))
            r = is_none(a) and is_none(b)
        elif isinstance(a, V) and isinstance(b, V):
            r = a is b
        elif isinstance(a, Const) and isinstance(b, Const):
            r = a.v is b.v
        elif isinstance(a, EnumM) and isinstance(b, EnumM):
            r = a.cls is b.cls and a.name == b.name
        elif isinstance(a, Num) and isinstance(b, Num) and a.const is not None and b.const is not None:
            r = a.const is b.const
        elif type(a) is not type(b) and not isinstance(a, Unknown) and not isinstance(b, Unknown):
            r = False
        if r is None:
            return I.boolnum(deps_of(a) | deps_of(b))
        return num_const(r if op == "Is" else not r)
    if op in ("In", "NotIn"):
        r = contains(I, b, a)
        if isinstance(r, bool):
            return num_const(r if op == "In" else not r)
        return r if op == "In" else not_num(r)
    if isinstance(a, Instance) or isinstance(b, Instance):
        nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        if isinstance(a, Instance):
            m, _ = a.cls.lookup(nm)
            if m is not None:
                return I.call(Bound(a, m), [b], {})
            if op == "NotEq":
                m, _ = a.cls.lookup("__eq__")
                if m is not None:
                    return I.unop("Not", I.call(Bound(a, m), [b], {}))
        if op in ("Eq", "NotEq"):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return I.boolnum(deps_of(a) | deps_of(b))
            return num_const((a is b) == (op == "Eq"))
        return I.boolnum(deps_of(a) | deps_of(b))
    if isinstance(a, EnumM) and isinstance(b, EnumM):
        r = a.cls is b.cls and a.name == b.name
        return num_const(r if op == "Eq" else not r)
    if isinstance(a, Const) and isinstance(b, Const):
        if "<fstring>" in (a.v, b.v):
            return I.boolnum()
        try:
            return num_const({"Eq": lambda: a.v == b.v, "NotEq": lambda: a.v != b.v, "Lt": lambda: a.v < b.v,
                              "LtE": lambda: a.v <= b.v, "Gt": lambda: a.v > b.v, "GtE": lambda: a.v >= b.v}[op]())
        except Exception:
            return I.boolnum()
    if isinstance(a, (Const, EnumM)) or isinstance(b, (Const, EnumM)):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return I.boolnum(deps_of(a) | deps_of(b))
        if op == "Eq":
            return num_const(False)
        if op == "NotEq":
            return num_const(True)
        if is_none(a) or is_none(b):
            I.exit_to("raise", NONE)
        return I.boolnum(deps_of(a) | deps_of(b))
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        if len(a.items) != len(b.items):
            return num_const(op != "Eq") if op in ("Eq", "NotEq") else I.boolnum()
        rs = [I.compare("Eq", x, y) for x, y in zip(a.items, b.items)]
        tr = [I.truth(r) for r in rs]
        if any(x is False for x in tr):
            r = num_const(False)
        elif all(x is True for x in tr):
            r = num_const(True)
        else:
            r = I.and_cond([x for x in tr if not isinstance(x, bool)])
        if op == "Eq":
            return r
        if op == "NotEq":
            return I.unop("Not", r)
        return I.boolnum(deps_of(a) | deps_of(b))
    na, nb = to_n(I, a), to_n(I, b)
    if isinstance(a, (ExtObj,)) and a.n is None or isinstance(b, ExtObj) and b.n is None:
        return I.boolnum()
    if na.const is not None and nb.const is not None and na.shape == () and nb.shape == ():
        x, y = na.const, nb.const
        r = num_const({"Eq": x == y, "NotEq": x != y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        dp = na.deps | nb.deps
        return r.with_(deps=dp) if dp else r
    if na.shape == () and nb.shape == () and na.term is not None and nb.term is not None:
        s = sign_term(T.sub(na.term, nb.term))
        r = None
        if s == "0":
            r = op in ("Eq", "LtE", "GtE")
        elif s == "+":
            r = op in ("NotEq", "Gt", "GtE")
        elif s == "-":
            r = op in ("NotEq", "Lt", "LtE")
        elif s == "nz":
            r = {"Eq": False, "NotEq": True}.get(op)
        elif s == ">=0":
            r = {"GtE": True, "Lt": False}.get(op)
        elif s == "<=0":
            r = {"LtE": True, "Gt": False}.get(op)
        if r is not None:
            return num_const(r)
    # canonical direction
    if op in ("Gt", "GtE"):
        op2 = {"Gt": "Lt", "GtE": "LtE"}[op]
        return mk(D.n_cmp(op2, nb, na))
    if op in ("Eq", "NotEq") and na.term is not None and nb.term is not None and nb.term < na.term:
        na, nb = nb, na
    return mk(D.n_cmp(op, na, nb))


def contains(I, c, x):
    if isinstance(c, (TupleV, ListV)):
        kind, data, cond = iterate(I, c)
        if kind == "known":
            unk = False
            for y in data:
                r = I.truth(I.compare("Eq", x, y))
                if r is True:
                    return True
                if r is not False:
                    unk = True
            if not unk:
                return False
        return I.boolnum(deps_of(c) | deps_of(x))
    if isinstance(c, DictV):
        k = dkey(x)
        if k is not None and UNK not in c.d:
            return k in c.d
        return I.boolnum(deps_of(c) | deps_of(x))
    if isinstance(c, Const) and isinstance(c.v, str) and isinstance(x, Const) and isinstance(x.v, str):
        return x.v in c.v
    if isinstance(c, Instance):
        m, _ = c.cls.lookup("__contains__")
        if m is not None:
            return I.truth(I.call(Bound(c, m), [x], {}))
    return I.boolnum(deps_of(c) | deps_of(x))


BINF = {"Add": D.n_add, "Sub": D.n_sub, "Mult": D.n_mul, "Div": D.n_div, "MatMult": D.n_matmul, "Mod": D.n_mod,
        "FloorDiv": D.n_floordiv, "Pow": D.n_pow}


def binop(I, op, a, b):
    if isinstance(a, (Const,)) and isinstance(a.v, str):
        return Const("<str>") if not (op == "Add" and isinstance(b, Const) and isinstance(b.v, str)) else Const(a.v + b.v)
    if isinstance(b, Const) and isinstance(b.v, str):
        return Const("<str>")
    if isinstance(a, (TupleV, ListV)) and not isinstance(b, (Arr,)):
        if op == "Add" and isinstance(b, (TupleV, ListV)):
            ka, da, ca = iterate(I, a)
            kb, db, cb = iterate(I, b)
            if ka == kb == "known":
                if isinstance(a, TupleV) and isinstance(b, TupleV):
                    return TupleV(list(da) + list(db))
                return mklist(I, list(da) + list(db))
            es = (da if ka == "known" else [da]) + (db if kb == "known" else [db])
            return ListV(None, I.join_all(es) if es else None)
        if op == "Mult" and isinstance(b, Num):
            ka, da, ca = iterate(I, a)
            if ka == "known" and b.const is not None and len(da) * int(b.const) <= 200:
                return (TupleV if isinstance(a, TupleV) else (lambda x: mklist(I, x)))(list(da) * int(b.const))
            return ListV(None, da if ka != "known" else (I.join_all(da) if da else None))
    if isinstance(b, (TupleV, ListV)) and isinstance(a, Num) and op == "Mult" and a.isint:
        return binop(I, op, b, a)
    if isinstance(a, ExtObj) or isinstance(b, ExtObj):
        from . import ext
        return ext.binop(I, op, a, b)
    if is_none(a) or is_none(b):
        I.exit_to("raise", NONE)
    if isinstance(a, (ListV, TupleV)) or isinstance(b, (ListV, TupleV)) or isinstance(a, (Num, Arr, Unknown)) and \
            isinstance(b, (Num, Arr, Unknown)):
        na, nb = to_n(I, a), to_n(I, b)
        f = BINF.get(op)
        if f is not None:
            return mk(f(na, nb))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if na.const is not None and nb.const is not None and isinstance(na.const, (bool, int)) and isinstance(nb.const, (bool, int)):
                return num_const({"BitAnd": na.const & nb.const, "BitOr": na.const | nb.const, "BitXor": na.const ^ nb.const}[op])
            r = I.and_cond([na, nb])
            return mk(r.with_(shape=D.bshape(na.shape, nb.shape),
                              term=T.app(op, na.term, nb.term) if na.term is not None and nb.term is not None else None))
        return mk(D.unknown(na.deps | nb.deps, D.bshape(na.shape, nb.shape)))
    if isinstance(a, (ClassV, Ext)) or isinstance(b, (ClassV, Ext)):
        if op == "BitOr":
            return TupleV([a, b])
    return I.unk(a, b)


# ---------------------------------------------------------------- isinstance & friends
def isinst(I, v, cls):
    """True / False / None"""
    if isinstance(cls, (TupleV, ListV)):
        res = False
        for c in (cls.items or ()):
            r = isinst(I, v, c)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    if isinstance(v, Unknown) or isinstance(cls, (Unknown, Union)):
        return None
    if isinstance(cls, ClassV):
        if isinstance(v, Instance):
            return v.cls.issub(cls)
        if isinstance(v, EnumM):
            return v.cls.issub(cls)
        return False
    if isinstance(cls, Ext):
        p = cls.path
        if p in ("numpy.ndarray",):
            if isinstance(v, Arr):
                return True if v.n.shape not in (None,) else None
            return False
        if p == "builtins.object":
            return True
        if isinstance(v, Num):
            if p == "builtins.bool":
                return isinstance(v.const, bool) if v.const is not None else None
            if p == "builtins.int":
                return True if v.isint else (False if v.const is not None else None if v.shape is None else False)
            if p == "builtins.float":
                return (not v.isint) if v.const is not None or v.shape == () else None
            if p in ("numbers.Number", "numbers.Real", "builtins.complex"):
                return p != "builtins.complex"
            if p.startswith("numpy."):
                return None
            return False
        if isinstance(v, Const):
            if p == "builtins.str":
                return isinstance(v.v, str)
            return False
        if isinstance(v, ListV):
            return p in ("builtins.list", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Iterable",
                         "typing.Sequence", "typing.List", "builtins.set") and (p != "builtins.set" or v.settype)
        if isinstance(v, TupleV):
            return p in ("builtins.tuple", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Tuple")
        if isinstance(v, DictV):
            return p in ("builtins.dict", "collections.abc.Mapping", "typing.Dict")
        if isinstance(v, (Func, Bound, Builtin, PartialV)):
            return p in ("collections.abc.Callable", "typing.Callable", "types.FunctionType", "types.LambdaType") or (
                None if p.startswith("types.") else False)
        if isinstance(v, Instance):
            return None if v.cls.ext else (p in ("collections.abc.Callable", "typing.Callable") and
                                           v.cls.lookup("__call__")[0] is not None)
        if isinstance(v, ExtObj):
            return True if p.endswith("." + v.cls.split(".")[-1]) else None
        if isinstance(v, Arr):
            if p in ("builtins.float", "builtins.int", "builtins.list", "builtins.tuple", "builtins.str", "builtins.dict"):
                return False if v.n.shape not in (None, ()) else None
            return None
    return None


def isinst_v(I, v, cls):
    if isinstance(v, Union):
        return I.fork_union(v, lambda a: isinst_v(I, a, cls))
    r = isinst(I, v, cls)
    return I.boolnum(deps_of(v, 1)) if r is None else num_const(r)


def is_callable(I, v):
    if isinstance(v, (Func, Bound, Builtin, PartialV, ClassV)):
        return True
    if isinstance(v, Instance):
        return v.cls.lookup("__call__")[0] is not None or (None if v.cls.ext else False)
    if isinstance(v, (Num, Arr, Const, TupleV, ListV, DictV)):
        return False
    if isinstance(v, Ext):
        return True
    return None


def has_attr(I, v, name):
    if isinstance(v, Instance):
        if name in v.d or v.cls.lookup(name)[0] is not None or name in ("__dict__", "__class__"):
            return True
        return None if v.cls.ext or v.cls.lookup("__getattr__")[0] is not None else False
    if isinstance(v, Num):
        if v.shape is None:
            return None
        return name in ("real", "imag", "__add__", "__float__", "__mul__") or (False if name in ("__iter__", "__len__", "__getitem__", "__call__") else None)
    if isinstance(v, Arr):
        if v.n.shape is None:
            return None
        return True if name in ("__iter__", "__len__", "shape", "ndim", "size", "__getitem__", "T", "dtype") else (False if name == "__call__" else None)
    if isinstance(v, (TupleV, ListV, DictV)):
        return True if name in ("__iter__", "__len__", "__getitem__", "append", "items") else False
    if isinstance(v, (Func, Bound)):
        return name in ("__call__", "__name__", "__self__", "__func__")
    if isinstance(v, Const):
        return hasattr(v.v, name)
    if isinstance(v, (ModuleV, ClassV)):
        return name in v.d or (isinstance(v, ClassV) and v.lookup(name)[0] is not None)
    return None


# ---------------------------------------------------------------- dataclass / enum / super
def dc_init(c):
    def init(I, args, kw):
        o = args[0]
        pos = args[1:]
        kw = dict(kw)
        star = kw.pop("**", None)
        fields = [(k, f) for k, f in c.dc]
        names = [k for k, f in fields if f.init]
        if len(pos) > len(names):
            I.problem("arity", "%s() takes %d arguments but %d were given" % (c.name, len(names), len(pos)))
            I.exit_to("raise", NONE)
        vals = dict(zip(names, pos))
        for k, v in kw.items():
            if k not in names:
                I.problem("arity", "%s() got an unexpected keyword argument '%s'" % (c.name, k))
                I.exit_to("raise", NONE)
            if k in vals:
                I.problem("arity", "%s() got multiple values for argument '%s'" % (c.name, k))
            vals[k] = v
        for k, f in fields:
            if k in vals:
                v = vals[k]
            elif f.factory is not None:
                v = I.call(f.factory, [], {})
            elif f.default is not None:
                v = f.default
            elif star is not None:
                v = star
            elif not f.init:
                continue
            else:
                I.problem("arity", "%s() missing required argument '%s'" % (c.name, k))
                I.exit_to("raise", NONE)
            I.setattr(o, k, v)
        pi, _ = o.cls.lookup("__post_init__") if isinstance(o, Instance) else (None, None)
        if pi is not None:
            I.call(Bound(o, pi), [], {})
        return NONE
    return init


def dc_eq(c):
    def eq(I, args, kw):
        a, b = args
        if not isinstance(b, Instance) or not isinstance(a, Instance) or a.cls is not b.cls:
            return num_const(False) if not isinstance(b, (Unknown, Union)) else I.boolnum()
        if a is b:
            return num_const(True)
        rs = []
        for k, _ in c.dc:
            if k in a.d and k in b.d:
                r = I.compare("Eq", a.d[k], b.d[k])
                t = I.truth(r) if not isinstance(r, Union) else I.boolnum()
                if t is False:
                    return num_const(False)
                if t is not True:
                    rs.append(t)
        if not rs:
            return num_const(True)
        return I.and_cond(rs)
    return eq


def enum_call(I, cls, args):
    if args and isinstance(args[0], EnumM):
        return args[0]
    return Unknown()


def make_super(I, env, args):
    if len(args) == 2:
        return SuperV(args[0], args[1])
    f = env
    while f is not None and not (isinstance(f.func, Func)):
        f = f.parent
    # find the method frame: the function defined in a class body
    e = env
    while e is not None:
        fn = e.func
        if isinstance(fn, Func) and fn.cls is not None:
            first = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args][:1]
            if first:
                return SuperV(fn.cls, e.d.get(first[0]))
        e = e.parent
    return Unknown()


def escape(I, args, kw):
    pass


# ---------------------------------------------------------------- copying
def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    return _dc(I, v, memo)


def _dc(I, v, memo):
    if isinstance(v, (Num, Const, Func, ClassV, ModuleV, Ext, ExtObj, Builtin, EnumM, Unknown, Prop, SliceV, Static, ClassM)):
        return v
    if isinstance(v, tuple):
        return tuple(_dc(I, x, memo) for x in v)
    if isinstance(v, Summ):
        return Summ(_dc(I, v.elem, memo))
    if isinstance(v, TupleV):
        return TupleV([_dc(I, x, memo) for x in v.items])
    if isinstance(v, Union):
        return Union([_dc(I, x, memo) for x in v.alts], v.cond)
    if isinstance(v, Bound):
        return Bound(_dc(I, v.self_, memo), v.func)
    if isinstance(v, PartialV):
        return PartialV(v.func, [_dc(I, x, memo) for x in v.args], {k: _dc(I, x, memo) for k, x in v.kw.items()})
    if isinstance(v, _I.StarV) or v is None:
        return v
    if v.uid in memo:
        return memo[v.uid]
    if isinstance(v, Arr):
        r = Arr(v.n)
        memo[v.uid] = r
        r.site = I.where()
        return r
    if isinstance(v, ListV):
        r = ListV(())
        r.settype = v.settype
    elif isinstance(v, DictV):
        r = DictV()
    elif isinstance(v, Instance):
        m, _ = v.cls.lookup("__deepcopy__")
        if m is not None:
            r = I.call(Bound(v, m), [DictV()], {})
            memo[v.uid] = r
            return r
        r = Instance(v.cls)
    else:
        return v
    r.site = I.where()
    memo[v.uid] = r
    for k, x in list(v.d.items()):
        r.d[k] = _dc(I, x, memo)
    return r


def shallow(I, v):
    if isinstance(v, Union):
        return I.fork_union(v, lambda a: shallow(I, a))
    if isinstance(v, Arr):
        return Arr(v.n)
    if isinstance(v, ListV):
        r = ListV(())
    elif isinstance(v, DictV):
        r = DictV()
    elif isinstance(v, Instance):
        m, _ = v.cls.lookup("__copy__")
        if m is not None:
            return I.call(Bound(v, m), [], {})
        r = Instance(v.cls)
    else:
        return v
    r.site = I.where()
    r.d.update(v.d)
    return r


# ---------------------------------------------------------------- attributes of non-instances
def getattr(I, o, name):
    from . import ext
    return ext.getattr(I, o, name)


def call_ext(I, path, args, kw):
    from . import ext
    return ext.call(I, path, args, kw)


def make_builtins(I):
    from . import ext
    return ext.make_builtins(I)
