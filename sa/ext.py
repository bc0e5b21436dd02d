"""Models of the external libraries (builtins, numpy, scipy rotations/optimisers, build123d, copy, dataclasses)."""
import math
from . import domains as D
from . import terms as T
from .domains import Num, Bad, Z, NODEPS, num_const, n_join
from .values import *
from . import models as M
from .models import mk, to_n, term_of, assemble, merge_facts, iterate, is_none
from .interp import StarV

_getattr = getattr if False else __builtins__["getattr"] if isinstance(__builtins__, dict) else __builtins__.getattr


def arg(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if i < len(args):
        return args[i]
    return default


def cval(v):
    """python constant or None"""
    if isinstance(v, Num):
        return v.const
    if isinstance(v, Const):
        return v.v
    return None


def alldeps(args, kw):
    r = NODEPS
    for v in list(args) + list(kw.values()):
        r = r | deps_of(v, 5)
    return r


def genterm(name, args, kw, tens=True):
    ts = []
    for v in list(args) + [kw[k] for k in sorted(kw)]:
        t = term_of(v)
        if t is None:
            return None
        ts.append(t)
    ks = tuple(sorted(kw))
    return (T.app_t if tens else T.app)(name, T.app("kw", repr(ks)), *ts)


def first_bad(ns):
    """(dim, rot, ang) Bad facts of the operands"""
    dim = rot = ang = None
    for n in ns:
        if isinstance(n.dim, Bad):
            dim = dim or n.dim
        if isinstance(n.rot, Bad):
            rot = rot or n.rot
        if isinstance(n.ang, Bad):
            ang = ang or n.ang
    return dim, rot, ang


def unknown_from(ns, shape=None, term=None):
    deps = NODEPS
    for n in ns:
        deps = deps | n.deps
    d, r, a = first_bad(ns)
    return Num(None, shape, None, deps, d, r, None, a, term if term is not None else D.fresh_term())


def sink(I, kind, n, msg):
    """record a definite misuse of a quantity at an external boundary"""
    I.sink_count[kind] = I.sink_count.get(kind, 0) + 1
    b = Bad(msg)
    I.sinks.append((kind, msg, b.where))
    return b


def chk_rad(I, n, what):
    """value used as an angle in radians"""
    I.sink_count["rad"] = I.sink_count.get("rad", 0) + 1
    if D.ang_class(n.ang) == "deg":
        return sink(I, "ang", n, "%s receives an angle in degrees" % what)
    return None


def is_pi_multiple(c):
    if c is None or isinstance(c, bool) or c == 0:
        return False
    q = c / math.pi
    for k in (1, 2, 3, 4, 6, 8, 12):
        if abs(q * k - round(q * k)) < 1e-9 and abs(c - round(c)) > 1e-9:
            return True
    return False


def chk_deg(I, n, what):
    I.sink_count["deg"] = I.sink_count.get("deg", 0) + 1
    els = n.elems or [n]
    for e in els:
        if D.ang_class(e.ang) == "rad" and e.rot != Z:
            return sink(I, "ang", e, "%s receives an angle in radians" % what)
        if e.ang == "P" and is_pi_multiple(e.const):
            return sink(I, "ang", e, "%s receives a multiple of pi where degrees are expected" % what)
    return None


# ================================================================= builtins
def make_builtins(I):
    b = {}
    for n in ("range", "len", "abs", "min", "max", "sum", "any", "all", "isinstance", "callable", "hasattr", "getattr",
              "setattr", "int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "zip", "enumerate", "reversed",
              "sorted", "print", "type", "super", "map", "filter", "iter", "next", "round", "pow", "divmod", "bin", "format",
              "id", "vars", "repr", "property", "staticmethod", "classmethod", "object", "issubclass", "hash", "input", "open",
              "slice", "complex", "ord", "chr", "hex", "oct", "globals", "locals", "dir", "delattr", "bytes", "exit", "quit",
              "eval", "exec", "__import__", "bytearray", "memoryview", "ascii", "compile", "breakpoint", "aiter", "anext"):
        b[n] = Ext("builtins." + n)
    import builtins
    for n in dir(builtins):
        o = builtins.__dict__[n]
        if isinstance(o, type) and issubclass(o, BaseException):
            b[n] = Ext("builtins." + n)
    b["NotImplemented"] = NOTIMPL
    b["Ellipsis"] = ELLIPSIS
    b["__debug__"] = num_const(True)
    b["__file__"] = Const("file")
    return b


def bi_range(I, args, kw):
    ns = [to_n(I, a) for a in args]
    if all(n.const is not None for n in ns):
        r = list(range(*[int(n.const) for n in ns]))
        if len(r) <= 64:
            return TupleV([num_const(i) for i in r])
    deps = NODEPS
    for n in ns:
        deps = deps | n.deps
    lo = ns[0] if len(ns) > 1 else num_const(0)
    d, r, a = first_bad(ns)
    i = Num(None, (), None, deps, d or 0, r or "S", T.ZERO, a or D.N1, D.fresh_term("i"), True)
    return ExtObj("range", i, {"range": i})


def bi_len(I, args, kw):
    v = args[0]
    if isinstance(v, Union):
        return I.fork_union(v, lambda a: bi_len(I, [a], {}))
    if isinstance(v, TupleV):
        return num_const(len(v.items))
    if isinstance(v, ListV):
        if v.items is not None:
            return num_const(len(v.items))
        return Num(None, (), None, deps_of(v), 0, "S", T.ZERO, D.N1, D.fresh_term("len"), True)
    if isinstance(v, DictV):
        if UNK not in v.d:
            return num_const(len(v.d))
    if isinstance(v, Const) and isinstance(v.v, str):
        return num_const(len(v.v))
    if isinstance(v, Instance):
        m, _ = v.cls.lookup("__len__")
        if m is not None:
            return I.call(Bound(v, m), [], {})
    if isinstance(v, Arr):
        sh = v.n.shape
        if sh and isinstance(sh[0], int):
            return num_const(sh[0])
        t = T.app("len", v.n.term) if v.n.term is not None else None
        return Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, t, True)
    return Num(None, (), None, deps_of(v), 0, "S", T.ZERO, D.N1, D.fresh_term("len"), True)


def reduce_n(I, name, n, axis=None):
    """sum/mean/min/max style reduction"""
    if n.const is not None and n.rot == Z:
        return n.with_(shape=())
    d = n.dim
    r = n.rot
    wt = T.ZERO
    if name in ("sum", "cumsum", "mean"):
        if r == "V":
            nd = D.ndim(n)
            if nd == 1 or axis is None and name != "cumsum":
                r = Bad("adds up the coordinates of a world vector")
            elif nd and nd >= 2:
                r = "V"
                wt = n.wt if name == "mean" or n.wt == T.ZERO else None
            else:
                r = None
        elif r == "Q":
            r = "S"
        elif r in ("F", "Ft", "G"):
            r = None
        elif r == "C":
            r = "C"
    elif name in ("max", "min", "argmax", "argmin", "any", "all", "ptp", "median", "std", "var", "prod"):
        if r in ("V", "F", "Ft", "G", "C"):
            r = Bad("%s over world coordinates" % name)
        elif r == "Q":
            r = None
        if name in ("argmax", "argmin", "any", "all"):
            d = d if isinstance(d, Bad) else 0
        if name == "prod":
            d = d if isinstance(d, Bad) or d == 0 else None
        if name == "var" and isinstance(d, (int, float)):
            d = 2 * d
    sh = None
    if axis is None:
        sh = ()
    elif n.shape is not None and isinstance(axis, int) and -len(n.shape) <= axis < len(n.shape):
        l = list(n.shape)
        del l[axis]
        sh = tuple(l)
    if name == "cumsum":
        sh = n.shape
    t = None
    if n.term is not None:
        t = (T.app if sh == () else T.app_t)(name if axis is None else name + str(axis), n.term)
    if n.elems and sh == () and name == "sum":
        t = T.ZERO
        for e in n.elems:
            t = T.add(t, e.term) if (t is not None and e.term is not None) else None
    return Num(None, sh, None, n.deps, d, r, wt, n.ang if name not in ("argmax", "argmin", "any", "all") or isinstance(n.ang, Bad) else D.N1,
               t, n.isint or name in ("argmax", "argmin"))


def bi_sum(I, args, kw):
    v = args[0]
    kind, data, c = iterate(I, v)
    if kind == "known":
        r = arg(args, kw, 1, "start", num_const(0))
        for x in data:
            r = I.binop("Add", r, x)
        return r
    if isinstance(data, (Num, Arr)):
        n = to_n(I, data)
        return mk(n.with_(const=None, elems=None, term=None if n.term is None else T.app("sumseq", n.term)))
    return I.unk(v)


def bi_minmax(name):
    def f(I, args, kw):
        if "key" in kw and len(args) == 1:
            kind, data, c = iterate(I, args[0])
            if kind == "known":
                ks = [I.call(kw["key"], [x], {}) for x in data]
                dp = NODEPS
                for k in ks:
                    dp = dp | deps_of(k)
                return I.join_all(list(data), I.boolnum(dp)) if data else I.unk(args[0])
            if data is not None:
                I.call(kw["key"], [data], {})
            return data
        vals = list(args)
        if len(args) == 1:
            if isinstance(args[0], Arr):
                return mk(reduce_n(I, name, args[0].n))
            kind, data, c = iterate(I, args[0])
            vals = data if kind == "known" else [data]
        ns = [to_n(I, v) for v in vals]
        if not ns:
            return Unknown()
        if all(n.const is not None for n in ns):
            return num_const({"min": min, "max": max}[name]([n.const for n in ns]))
        r = ns[0]
        for n in ns[1:]:
            r = n_join(r, n)
            d = D.dim_same(ns[0].dim, n.dim, name + " of")
            if isinstance(d, Bad):
                r = r.with_(dim=d)
        ts = [n.term for n in ns]
        return mk(r.with_(const=None, shape=() if all(n.shape == () for n in ns) else None,
                          term=T.app(name, *sorted(ts)) if all(t is not None for t in ts) else None))
    return f


def bi_anyall(name):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, Union):
            return I.fork_union(v, lambda a: f(I, [a], {}))
        if isinstance(v, (Arr, Num)):
            return mk(reduce_n(I, name, to_n(I, v)))
        kind, data, c = iterate(I, v)
        if kind == "known":
            unk = []
            for x in data:
                t = I.truth(x) if not isinstance(x, Union) else I.boolnum(deps_of(x))
                if t is True and name == "any":
                    return num_const(True)
                if t is False and name == "all":
                    return num_const(False)
                if not isinstance(t, bool):
                    unk.append(t)
            if not unk:
                return num_const(name == "all")
            r = I.and_cond(unk) if len(unk) > 1 else unk[0]
            if len(unk) > 1 and r.term is not None:
                r = r.with_(term=T.app(name, r.term))
            return r
        if data is not None and not isinstance(data, Union):
            t = I.truth(data)
            if t is True or t is False:
                return num_const(t) if (t is True and name == "all") or (t is False and name == "any") else I.boolnum(deps_of(v))
        return I.boolnum(deps_of(v))
    return f


def bi_getattr(I, args, kw):
    o, n = args[0], args[1]
    if isinstance(n, Const) and isinstance(n.v, str) and n.v != "<fstring>":
        h = M.has_attr(I, o, n.v) if not isinstance(o, Union) else None
        if len(args) > 2:
            if h is True:
                return I.getattr(o, n.v)
            if h is False:
                return args[2]
            if isinstance(o, Union):
                return I.fork_union(o, lambda a: bi_getattr(I, [a] + args[1:], kw))
            return I.unk(o, args[2])
        return I.getattr(o, n.v)
    return I.unk(o)


def bi_int(I, args, kw):
    if not args:
        return num_const(0)
    v = args[0]
    if isinstance(v, Const):
        return Unknown()
    n = to_n(I, v)
    r = D.n_fn("int", n.with_(shape=() if n.shape is None else n.shape))
    return mk(r)


def bi_list(I, args, kw):
    if not args:
        l = ListV(())
        l.site = I.where()
        return l
    v = args[0]
    if isinstance(v, Union):
        return I.fork_union(v, lambda a: bi_list(I, [a], {}))
    kind, data, c = iterate(I, v)
    l = ListV(data) if kind == "known" else ListV(None, data)
    l.site = I.where()
    return l


def bi_tuple(I, args, kw):
    if not args:
        return TupleV(())
    v = args[0]
    if isinstance(v, Union):
        return I.fork_union(v, lambda a: bi_tuple(I, [a], {}))
    kind, data, c = iterate(I, v)
    return TupleV(data) if kind == "known" else ListV(None, data)


def bi_dict(I, args, kw):
    d = DictV()
    for a in args:
        if isinstance(a, DictV):
            d.d.update(a.d)
        else:
            kind, data, c = iterate(I, a)
            if kind == "known":
                for x in data:
                    if isinstance(x, TupleV) and len(x.items) == 2 and M.dkey(x.items[0]) is not None:
                        d.d[M.dkey(x.items[0])] = x.items[1]
                    else:
                        d.d[UNK] = I.unk(x)
            else:
                d.d[UNK] = I.unk(data)
    for k, v in kw.items():
        d.d[k] = v
    return d


def seqs(I, vs):
    out = []
    for v in vs:
        if isinstance(v, Union):
            v = M.merge_lists(I, v)
        out.append(iterate(I, v))
    return out


def bi_zip(I, args, kw):
    s = seqs(I, args)
    if s and all(k == "known" for k, d, c in s):
        return ListV([TupleV(x) for x in zip(*[d for k, d, c in s])])
    els = []
    for k, d, c in s:
        if k == "known":
            els.append(I.join_all(d) if d else Unknown())
        else:
            els.append(d if d is not None else Unknown())
    return ListV(None, TupleV(els))


def bi_enumerate(I, args, kw):
    (k, d, c), = seqs(I, args[:1])
    st = arg(args, kw, 1, "start", num_const(0))
    s0 = cval(st) or 0
    if k == "known":
        return ListV([TupleV([num_const(i + s0), x]) for i, x in enumerate(d)])
    i = Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, D.fresh_term("i"), True)
    return ListV(None, TupleV([i, d if d is not None else Unknown()]))


def bi_reversed(I, args, kw):
    (k, d, c), = seqs(I, args[:1])
    if k == "known":
        return ListV(list(reversed(d)))
    return ListV(None, d)


def bi_sorted(I, args, kw):
    (k, d, c), = seqs(I, args[:1])
    if "key" in kw:
        for x in (d if k == "known" else [d]):
            if x is not None:
                I.call(kw["key"], [x], {})
    if k == "known":
        if all(isinstance(x, Num) and x.const is not None for x in d):
            r = sorted(d, key=lambda n: n.const)
            if cval(kw.get("reverse")):
                r.reverse()
            return ListV(r)
        if len(d) <= 1:
            return ListV(d)
        j = I.join_all(d, I.boolnum(alldeps(d, {})))
        return ListV([j] * len(d)) if len(d) <= 8 else ListV(None, j)
    return ListV(None, d)


def bi_map(I, args, kw):
    s = seqs(I, args[1:])
    if s and all(k == "known" for k, d, c in s):
        return ListV([I.call(args[0], list(x), {}) for x in zip(*[d for k, d, c in s])])
    els = [(I.join_all(d) if d else Unknown()) if k == "known" else (d if d is not None else Unknown()) for k, d, c in s]
    return ListV(None, I.call(args[0], els, {}))


def bi_filter(I, args, kw):
    (k, d, c), = seqs(I, args[1:2])
    out = ListV(())
    if k == "known":
        for x in d:
            cnd = x if is_none(args[0]) else I.call(args[0], [x], {})
            I.branch(cnd, lambda: M.list_append(I, out, x), lambda: None)
        return out
    return ListV(None, d)


def bi_next(I, args, kw):
    k, d, c = iterate(I, args[0]) if not isinstance(args[0], Union) else ("summary", I.unk(args[0]), None)
    if k == "known":
        if d:
            return d[0]
        if len(args) > 1:
            return args[1]
        I.exit_to("raise", NONE)
    return d if d is not None else Unknown()


def bi_type(I, args, kw):
    v = args[0]
    if isinstance(v, Instance):
        return v.cls
    if isinstance(v, Union):
        return I.fork_union(v, lambda a: bi_type(I, [a], {}))
    return Ext("builtins.<type>")


def bi_vars(I, args, kw):
    if args and isinstance(args[0], (Instance, ModuleV)):
        return DictV(args[0].d)
    return Unknown()


def bi_pow(I, args, kw):
    return I.binop("Pow", args[0], args[1])


def bi_setattr(I, args, kw):
    if isinstance(args[1], Const) and isinstance(args[1].v, str):
        I.setattr(args[0], args[1].v, args[2])
    elif isinstance(args[0], Instance):
        for k in list(args[0].d):
            I.write(args[0].d, k, I.join(args[0].d[k], args[2]))
    return NONE


def union1(f):
    def g(I, args, kw):
        if args and isinstance(args[0], Union):
            return I.fork_union(args[0], lambda a: g(I, [a] + list(args[1:]), kw))
        return f(I, args, kw)
    return g


def tri(I, r, v):
    return I.boolnum(deps_of(v, 1)) if r is None else num_const(r)


BUILTIN = {
    "range": bi_range, "len": bi_len, "sum": bi_sum, "min": bi_minmax("min"), "max": bi_minmax("max"),
    "any": bi_anyall("any"), "all": bi_anyall("all"), "getattr": bi_getattr, "int": bi_int, "list": bi_list,
    "tuple": bi_tuple, "dict": bi_dict, "zip": bi_zip, "enumerate": bi_enumerate, "reversed": bi_reversed,
    "sorted": bi_sorted, "map": bi_map, "filter": bi_filter, "next": bi_next, "type": bi_type, "vars": bi_vars,
    "pow": bi_pow, "setattr": bi_setattr,
    "isinstance": lambda I, a, k: M.isinst_v(I, a[0], a[1]),
    "callable": union1(lambda I, a, k: tri(I, M.is_callable(I, a[0]), a[0])),
    "hasattr": union1(lambda I, a, k: tri(I, M.has_attr(I, a[0], cval(a[1])), a[0])),
    "abs": union1(lambda I, a, k: mk(D.n_fn("abs", to_n(I, a[0])))),
    "float": union1(lambda I, a, k: to_n(I, a[0]).with_(isint=False, const=None if to_n(I, a[0]).const is None else float(to_n(I, a[0]).const)) if a and not isinstance(a[0], Const) else Unknown()),
    "bool": lambda I, a, k: (lambda t: num_const(t) if isinstance(t, bool) else t)(I.truth(a[0]) if not isinstance(a[0], Union) else I.boolnum(deps_of(a[0]))),
    "str": lambda I, a, k: Const("<str>"), "repr": lambda I, a, k: Const("<str>"), "format": lambda I, a, k: Const("<str>"),
    "print": lambda I, a, k: NONE, "iter": lambda I, a, k: a[0], "bin": lambda I, a, k: Const("<bin>"),
    "round": union1(lambda I, a, k: mk(D.n_fn("round", to_n(I, a[0])).with_(isint=len(a) < 2))),
    "set": bi_list, "frozenset": bi_list, "id": lambda I, a, k: I.boolnum(), "object": lambda I, a, k: Unknown(),
    "property": lambda I, a, k: Prop(a[0] if a else NONE, a[1] if len(a) > 1 else None),
    "staticmethod": lambda I, a, k: Static(a[0]), "classmethod": lambda I, a, k: ClassM(a[0]),
    "slice": lambda I, a, k: SliceV(*([None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3])),
    "divmod": lambda I, a, k: TupleV([I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1])]),
    "issubclass": lambda I, a, k: num_const(a[0].issub(a[1])) if isinstance(a[0], ClassV) and isinstance(a[1], ClassV) else I.boolnum(),
    "globals": lambda I, a, k: Unknown(), "locals": lambda I, a, k: Unknown(),
}


# ================================================================= numpy
def shape_arg(v):
    """python shape tuple from an argument, entries None when unknown"""
    if isinstance(v, Num):
        return (int(v.const) if v.const is not None else None,)
    if isinstance(v, TupleV) or (isinstance(v, ListV) and v.items is not None):
        return tuple(int(x.const) if isinstance(x, Num) and x.const is not None else None for x in v.items)
    return None


def float_type(v):
    n = v.path if isinstance(v, Ext) else v.name if isinstance(v, Builtin) else v.v if isinstance(v, Const) else None
    return isinstance(n, str) and n.split(".")[-1] in ("float", "float64", "double")


def np_array(copy):
    def f(I, args, kw):
        v = arg(args, kw, 0, "object")
        if isinstance(v, Union):
            return I.fork_union(v, lambda a: f(I, [a] + list(args[1:]), kw))
        if isinstance(v, Arr):
            dt = arg(args, kw, 1, "dtype")
            # an array of floats is not copied for another name of its own type
            if not copy and (dt is None or is_none(dt) or float_type(dt)):
                return v
            return Arr(v.n)
        if is_none(v):
            return Unknown()
        n = to_n(I, v)
        if isinstance(v, Num):
            return n
        return Arr(n)
    return f


def zeros(val):
    def f(I, args, kw):
        v = arg(args, kw, 0, "shape")
        sh = shape_arg(v)
        c = num_const(val)
        if sh is not None and len(sh) == 1 and isinstance(sh[0], int) and sh[0] <= 24:
            return Arr(assemble([c] * sh[0]) if sh[0] else assemble([]))
        n = Num(None, sh, None, deps_of(v) & frozenset(), c.dim, c.rot, T.ZERO, "P", T.ZERO if val == 0 else T.app_t("ones"))
        return Arr(n)
    return f


def like(val):
    def f(I, args, kw):
        n = to_n(I, args[0])
        c = num_const(val)
        if n.elems:
            return Arr(assemble([c] * len(n.elems)))
        return mk(Num(None, n.shape, None, NODEPS, c.dim, c.rot, T.ZERO, "P", T.ZERO if val == 0 else T.app_t("ones")))
    return f


def np_full(I, args, kw):
    sh = shape_arg(args[0])
    n = to_n(I, args[1])
    return Arr(n.with_(const=None, elems=None, shape=sh))


def np_eye(I, args, kw):
    k = cval(arg(args, kw, 0, "N"))
    s = num_const(1)
    return Arr(Num(None, (k, k), None, NODEPS, 0, "S", T.ZERO, "P", T.ONE if k == 3 else T.app_t("eye", T.const(k or 0))))


def np_linspace(I, args, kw):
    a = to_n(I, arg(args, kw, 0, "start"))
    b = to_n(I, arg(args, kw, 1, "stop"))
    nv = arg(args, kw, 2, "num", num_const(50))
    nn = to_n(I, nv)
    k = int(nn.const) if nn.const is not None else None
    ends = cval(kw.get("endpoint"))
    deps = a.deps | b.deps
    if a.shape == () and b.shape == () and k is not None and 2 <= k <= 12 and ends is not False:
        els = []
        for i in range(k):
            if i == 0:
                els.append(a)
            elif i == k - 1:
                els.append(b)
            else:
                f = i / (k - 1)
                els.append(D.n_add(D.n_mul(a, num_const(1 - f)), D.n_mul(b, num_const(f))))
        return Arr(assemble(els))
    dim, rot, wt, ang = merge_facts([a, b])
    dd = D.dim_same(a.dim, b.dim, "interpolates between")
    if isinstance(dd, Bad):
        dim = dd
    t = None
    if a.term is not None and b.term is not None and nn.term is not None:
        t = T.app_t("linspace", a.term, b.term, nn.term)
    sh = (k,) + tuple(a.shape) if a.shape is not None else None
    if a.shape == () and b.shape not in ((), None):
        sh = (k,) + tuple(b.shape)
    extra = None
    if a.shape == () and b.shape == () and ends is not False:
        extra = ("span", a, b, True) if M.nonneg_diff(a, b) else None
    return Arr(Num(None, sh, None, deps | nn.deps, dim, rot, wt, ang, t, False, extra))


def np_arange(I, args, kw):
    ns = [to_n(I, a) for a in args]
    if all(n.const is not None for n in ns):
        try:
            import itertools
            a = [n.const for n in ns]
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            m = int(math.ceil((hi - lo) / st))
            if 0 <= m <= 24:
                return Arr(assemble([num_const(lo + i * st) for i in range(m)]))
        except Exception:
            pass
    dim, rot, wt, ang = merge_facts(ns)
    return Arr(Num(None, (None,), None, alldeps(args, kw), dim, rot, wt, ang, genterm("arange", args, kw), all(n.isint for n in ns)))


def np_concat(axis_default):
    def f(I, args, kw):
        seq = arg(args, kw, 0, "arrays")
        if isinstance(seq, Union):
            return I.fork_union(seq, lambda a: f(I, [a] + list(args[1:]), kw))
        ax = cval(arg(args, kw, 1, "axis"))
        if ax is None:
            ax = axis_default
        kind, data, c = iterate(I, seq)
        if kind == "known":
            ns = [to_n(I, x) for x in data]
        else:
            ns = [to_n(I, data)] if data is not None else []
        ns2 = [n for n in ns if not (n.shape is not None and 0 in n.shape)] or ns
        if not ns2:
            return Arr(assemble([]))
        if kind == "known" and all(n.elems is not None and D.ndim(n) == 1 for n in ns):
            return Arr(assemble([e for n in ns for e in n.elems]))
        dim, rot, wt, ang = merge_facts(ns2)
        deps = NODEPS
        for n in ns:
            deps = deps | n.deps
        sh = None
        if kind == "known" and all(n.shape is not None and len(n.shape) == len(ns2[0].shape) for n in ns2):
            l = list(ns2[0].shape)
            if -len(l) <= ax < len(l):
                if rot == "V" and ax in (len(l) - 1, -1):
                    rot = None
                if rot in ("F", "Ft", "G"):
                    rot = None
                tot = 0
                for n in ns2:
                    tot = None if (tot is None or n.shape[ax] is None) else tot + n.shape[ax]
                l[ax] = tot
                for i in range(len(l)):
                    if i != ax % len(l) and any(n.shape[i] != l[i] for n in ns2):
                        l[i] = None
                sh = tuple(l)
        elif kind != "known" and ns2[0].shape is not None:
            l = list(ns2[0].shape)
            if l and -len(l) <= ax < len(l):
                l[ax] = None
                sh = tuple(l)
                if rot == "V" and ax in (len(l) - 1, -1):
                    rot = None
        elif rot in ("V", "F", "Ft", "G"):
            rot = None
        ts = [n.term for n in ns]
        t = T.app_t("concat%d" % ax, *ts) if all(x is not None for x in ts) else None
        if kind != "known" and t is not None:
            t = T.app_t("concatseq%d" % ax, *ts)
        extra = None
        if kind == "known":
            u = M.span_union([M.span_of(n) for n in ns])
            if u is not None:
                extra = ("span", u[0], u[1], False)
        return Arr(Num(None, sh, None, deps, dim, rot, wt, ang, t, all(n.isint for n in ns), extra))
    return f


def np_stack(I, args, kw):
    seq = arg(args, kw, 0, "arrays")
    if isinstance(seq, Union):
        return I.fork_union(seq, lambda a: np_stack(I, [a] + list(args[1:]), kw))
    ax = cval(arg(args, kw, 1, "axis")) or 0
    kind, data, c = iterate(I, seq)
    if kind == "known":
        ns = [to_n(I, x) for x in data]
        n = assemble(ns)
    else:
        e = to_n(I, data) if data is not None else D.unknown()
        n = e.with_(const=None, elems=None, shape=None if e.shape is None else (None,) + tuple(e.shape),
                    term=None if e.term is None else T.app_t("seq", e.term))
    if ax not in (0,):
        n = n.with_(elems=None, shape=None if n.shape is None else tuple(n.shape[1:1 + (ax if ax > 0 else len(n.shape) - 1)]) + (n.shape[0],) + tuple(n.shape[1 + (ax if ax > 0 else len(n.shape) - 1):]),
                    rot=n.rot if n.rot in ("S", Z) or isinstance(n.rot, Bad) else None,
                    term=None if n.term is None else T.app_t("stk%s" % ax, n.term))
    return Arr(n)


def np_append(I, args, kw):
    a, b = args[0], args[1]
    ax = cval(arg(args, kw, 2, "axis"))
    na, nb = to_n(I, a), to_n(I, b)
    if ax is None:
        if na.elems is not None and nb.shape == ():
            return Arr(assemble(list(na.elems) + [nb]))
        if na.elems is not None and nb.elems is not None:
            return Arr(assemble(list(na.elems) + list(nb.elems)))
        if na.shape == () and nb.elems is not None:
            return Arr(assemble([na] + list(nb.elems)))
    dim, rot, wt, ang = merge_facts([x for x in (na, nb) if not (x.shape and 0 in x.shape)] or [na, nb])
    sh = None
    if ax is None:
        if rot not in ("S", Z) and not isinstance(rot, Bad):
            rot = None
        if na.shape is not None and nb.shape is not None:
            def sz(s):
                r = 1
                for q in s:
                    r = None if (r is None or q is None) else r * q
                return r
            x, y = sz(na.shape), sz(nb.shape)
            sh = (None if x is None or y is None else x + y,)
    elif na.shape is not None and nb.shape is not None and len(na.shape) == len(nb.shape):
        l = list(na.shape)
        l[ax] = None if l[ax] is None or nb.shape[ax] is None else l[ax] + nb.shape[ax]
        sh = tuple(l)
    t = T.app_t("append%s" % ax, na.term, nb.term) if na.term is not None and nb.term is not None else None
    return Arr(Num(None, sh, None, na.deps | nb.deps, dim, rot, wt, ang, t, na.isint and nb.isint))


def np_dot(I, args, kw):
    a, b = to_n(I, args[0]), to_n(I, args[1])
    if a.shape == () or b.shape == ():
        return mk(D.n_mul(a, b))
    r = D.n_matmul(a, b)
    if D.ndim(a) == 1 and D.ndim(b) == 1:
        pass
    if a.elems and b.elems and len(a.elems) == len(b.elems) and D.ndim(a) == 1 and r.term is not None:
        t = T.ZERO
        for x, y in zip(a.elems, b.elems):
            t = T.add(t, T.mul(x.term, y.term)) if t is not None and x.term is not None and y.term is not None else None
        if t is not None:
            r = r.with_(term=t)
    return mk(r)


def np_norm(I, args, kw):
    n = to_n(I, args[0])
    ax = cval(arg(args, kw, 2, "axis"))
    r = D.n_norm(n)
    sh = ()
    if ax is not None and n.shape is not None:
        l = list(n.shape)
        if -len(l) <= ax < len(l):
            del l[ax]
        sh = tuple(l)
        if n.rot == "V" and ax not in (-1, len(n.shape) - 1):
            r = r.with_(rot=None)
    elif ax is not None:
        sh = None
    if r.term is not None and ax is not None:
        r = r.with_(term=T.app("norm%s" % ax, n.term))
    return mk(r.with_(shape=sh))


def np_cross(I, args, kw):
    return mk(D.n_cross(to_n(I, args[0]), to_n(I, args[1])))


def np_fn1(name):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, Union):
            return I.fork_union(v, lambda a: f(I, [a] + list(args[1:]), kw))
        n = to_n(I, v)
        if name in D.TRIG:
            chk_rad(I, n, name + "()")
        return mk(D.n_fn(name, n))
    return f


def np_arctan2(I, args, kw):
    a, b = to_n(I, args[0]), to_n(I, args[1])
    r = D.n_generic2("arctan2", a, b, "zero")
    # canonical positive common factor is not removed: terms stay exact
    if not isinstance(r.ang, Bad):
        r = r.with_(ang=1.0)
    if not isinstance(r.dim, Bad) and r.dim is not None:
        r = r.with_(dim=0)
    if r.const is None:
        ra, rb = a.rot, b.rot
        if "C" in (ra, rb):
            r = r.with_(rot=Bad("polar angle of world coordinates"))
    return mk(r)


def np_gen2(name, dimres="same"):
    def f(I, args, kw):
        a, b = to_n(I, args[0]), to_n(I, args[1])
        if name == "mod":
            return mk(D.n_mod(a, b))
        r = D.n_generic2(name, a, b, dimres)
        return mk(r)
    return f


def np_reduce(name):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, Union):
            return I.fork_union(v, lambda a: f(I, [a] + list(args[1:]), kw))
        if name in ("any", "all", "argmin", "argmax") and isinstance(v, (ListV, TupleV)):
            n = to_n(I, v)
            if n.elems and all(e.const is not None for e in n.elems):
                cs = [e.const for e in n.elems]
                return num_const({"any": any(cs), "all": all(cs), "argmin": cs.index(min(cs)), "argmax": cs.index(max(cs))}[name])
        n = to_n(I, v)
        ax = cval(arg(args, kw, 1, "axis"))
        r = reduce_n(I, name, n, ax)
        if name == "cumsum" and n.elems:
            els = []
            acc = None
            for e in n.elems:
                acc = e if acc is None else D.n_add(acc, e)
                els.append(acc)
            return Arr(assemble(els))
        return mk(r)
    return f


def np_transpose(I, args, kw):
    v = args[0]
    n = to_n(I, v)
    r = D.n_transpose(n)
    if D.ndim(n) == 2 and n.shape == (3, 3) and n.term is not None:
        r = r.with_(term=T.transpose(n.term))
    return Arr(r, (v,) if isinstance(v, Arr) else ())


def np_reshape(I, args, kw):
    v = args[0]
    n = to_n(I, v)
    sh = shape_arg(args[1]) if len(args) == 2 else tuple(
        int(x.const) if isinstance(x, Num) and x.const is not None else None for x in args[1:])
    if sh is not None:
        sh = tuple(None if x == -1 else x for x in sh)
        if n.shape is not None and all(isinstance(q, int) for q in n.shape) and sum(x is None for x in sh) == 1 and (-1 in [cval(x) for x in args[1:]] or True):
            tot = 1
            for q in n.shape:
                tot *= q
            k = 1
            for q in sh:
                if q is not None:
                    k *= q
            if k and tot % k == 0:
                sh = tuple(tot // k if x is None else x for x in sh)
    if sh == n.shape:
        return Arr(n, (v,) if isinstance(v, Arr) else ())
    rot = n.rot if n.rot in ("S", Z) or isinstance(n.rot, Bad) else None
    if n.rot == "V" and sh is not None and sh and sh[-1] == 3 and n.shape is not None and n.shape[-1] == 3:
        rot = "V"
    t = n.term
    if t is not None and sh != n.shape and t != T.ZERO:
        t = T.app_t("reshape", t, repr(sh))
        if sh is not None and len(sh) == 2 and sh[0] == 1 and n.shape == (3,):
            t = n.term
    return Arr(n.with_(shape=sh, rot=rot, term=t, elems=n.elems if sh is not None and len(sh) == 1 else None, const=None),
               (v,) if isinstance(v, Arr) else ())


def np_flip(I, args, kw):
    v = args[0]
    n = to_n(I, v)
    if n.elems is not None:
        return Arr(assemble(list(reversed(n.elems))), (v,) if isinstance(v, Arr) else ())
    ax = cval(arg(args, kw, 1, "axis"))
    rot = n.rot
    if rot in ("V", "F", "Ft", "G") and not (rot == "V" and ax == 0 and (D.ndim(n) or 2) >= 2):
        rot = None
    return Arr(n.with_(rot=rot, term=None if n.term is None else _flipterm(n.term, ax)), (v,) if isinstance(v, Arr) else ())


def _flipterm(t, ax):
    if len(t) == 1 and t[0][1] == 1.0 and len(t[0][0][0]) == 1 and t[0][0][1] == ():
        k = T.atom_key(t[0][0][0][0])
        if k[0] == "app" and k[1] == "flip%s" % ax:
            return k[2]
        if k[0] == "app" and k[1] == "linspace":
            return T.app_t("linspace", k[3], k[2], k[4])
    return T.app_t("flip%s" % ax, t)


def np_interp(I, args, kw):
    x, xp, fp = [to_n(I, a) for a in args[:3]]
    d = D.dim_same(x.dim, xp.dim, "looks up")
    dim = d if isinstance(d, Bad) else fp.dim
    rot = fp.rot
    b = first_bad([x, xp, fp])
    if b[1]:
        rot = b[1]
    t = T.app("interp", x.term, xp.term, fp.term) if None not in (x.term, xp.term, fp.term) else None
    if x.const is not None and xp.elems and fp.elems and len(xp.elems) == len(fp.elems):
        if xp.elems[0].const is not None and x.const == xp.elems[0].const:
            return fp.elems[0]
        if xp.elems[-1].const is not None and x.const == xp.elems[-1].const:
            return fp.elems[-1]
    if xp.elems and len(xp.elems) == 2 and fp.elems and len(fp.elems) == 2 and x.shape == () \
            and xp.elems[0].const == 0 and xp.elems[1].const == 1:
        # linear two-point lookup (range extrapolation is handled separately by the caller)
        r = D.n_add(D.n_mul(fp.elems[0], D.n_sub(num_const(1), x)), D.n_mul(fp.elems[1], x))
        return r.with_(deps=x.deps | xp.deps | fp.deps)
    return mk(Num(None, x.shape, None, x.deps | xp.deps | fp.deps, dim, rot, fp.wt, fp.ang if not b[2] else b[2], t))


def np_where(I, args, kw):
    c = to_n(I, args[0])
    if len(args) < 3:
        return TupleV([Arr(Num(None, (None,), None, c.deps, 0, "S", T.ZERO, D.N1, D.fresh_term(), True))])
    if c.const is not None:
        return args[1] if c.const else args[2]
    a, b = to_n(I, args[1]), to_n(I, args[2])
    r = n_join(a, b, c)
    return mk(r.with_(shape=D.bshape(c.shape, D.bshape(a.shape, b.shape)), elems=None, const=None))


def np_same(copy=True):
    def f(I, args, kw):
        n = to_n(I, args[0])
        return mk(n)
    return f


def np_roll(I, args, kw):
    n = to_n(I, args[0])
    rot = n.rot if n.rot in ("S", Z) or isinstance(n.rot, Bad) else None
    return Arr(n.with_(elems=None, rot=rot, term=None if n.term is None else genterm("roll", args, kw)))


def np_ndim(I, args, kw):
    n = to_n(I, args[0])
    if n.shape is not None:
        return num_const(len(n.shape))
    return Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, T.app("ndim", n.term) if n.term is not None else None, True)


def np_shape(I, args, kw):
    n = to_n(I, args[0])
    return shape_value(n)


def shape_value(n):
    if n.shape is None:
        return ListV(None, Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, D.fresh_term("sh"), True))
    return TupleV([num_const(k) if k is not None else Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1,
                                                         T.app("shape", T.const(i), n.term) if n.term is not None else D.fresh_term("sh"), True)
                   for i, k in enumerate(n.shape)])


def np_isclose(I, args, kw):
    a, b = to_n(I, args[0]), to_n(I, args[1])
    if a.term is not None and a.term == b.term:
        return num_const(True)
    r = D.n_cmp("Eq", a, b)
    return mk(r.with_(shape=r.shape))


def np_allclose(I, args, kw):
    r = np_isclose(I, args, kw)
    if isinstance(r, Arr):
        return r.n.with_(shape=())
    return r


def np_block(I, args, kw):
    v = args[0]
    ns = []

    def walk(x):
        kind, data, c = iterate(I, x)
        for y in (data if kind == "known" else [data]):
            if isinstance(y, (ListV, TupleV)):
                walk(y)
            elif y is not None:
                ns.append(to_n(I, y))
    walk(v)
    deps = NODEPS
    for n in ns:
        deps = deps | n.deps
    d, r, a = first_bad(ns)
    ts = [n.term for n in ns]
    return Arr(Num(None, (None, None), None, deps, d, r, None, a, T.app_t("block", *ts) if all(t is not None for t in ts) else None))


def np_generic(name):
    def f(I, args, kw):
        ns = [to_n(I, a) for a in args if not isinstance(a, (Const, Func, Bound, Builtin))]
        return mk(unknown_from(ns, None, genterm("np." + name, args, kw)))
    return f


def np_einsum(I, args, kw):
    ns = [to_n(I, a) for a in args[1:]]
    dim = 0
    for n in ns:
        dim = D.dim_add(dim, n.dim)
    d, r, a = first_bad(ns)
    return mk(Num(None, None, None, alldeps(args, kw), d or dim, r, None, a, genterm("einsum", args, kw)))


def np_outer(I, args, kw):
    ns = [to_n(I, a) for a in args]
    d, r, a = first_bad(ns)
    return mk(Num(None, (None, None), None, alldeps(args, kw), D.dim_add(ns[0].dim, ns[1].dim),
                  r or ("S" if all(n.rot in ("S", Z) for n in ns) else None), T.ZERO, a, genterm("outer", args, kw)))


def np_keep(name, shape=None, keeprot=False):
    """rearrangements that keep dimension and angle facts"""
    def f(I, args, kw):
        n = to_n(I, args[0])
        rot = n.rot if keeprot or n.rot in ("S", Z) or isinstance(n.rot, Bad) else None
        return mk(n.with_(const=None, elems=None, shape=shape, rot=rot, deps=alldeps(args, kw), term=genterm(name, args, kw)))
    return f


def np_clip(I, args, kw):
    ns = [to_n(I, a) for a in args[:3] if not is_none(a)]
    dim = ns[0].dim
    for n in ns[1:]:
        dim = D.dim_same(dim, n.dim, "clips")
    r = n_join(ns[0], ns[0])
    d, b, a = first_bad(ns)
    rk = D.rot_fn(ns[0], "clip")
    return mk(ns[0].with_(const=None, elems=None, dim=dim, rot=b or rk, ang=a or ns[0].ang, deps=alldeps(args, kw), term=genterm("clip", args, kw)))


def np_linalg_inv(I, args, kw):
    n = to_n(I, args[0])
    d = -n.dim if isinstance(n.dim, (int, float)) else n.dim
    return Arr(n.with_(dim=d, rot={"F": "Ft", "Ft": "F", "S": "S"}.get(n.rot, n.rot if isinstance(n.rot, Bad) else None),
                       term=None if n.term is None else T.app_t("matinv", n.term)))


def np_sorted(name):
    def f(I, args, kw):
        if args and isinstance(args[0], Union):
            return I.fork_union(args[0], lambda a: f(I, [a] + list(args[1:]), kw))
        a = to_n(I, args[0])
        sp = M.span_of(a)
        if name == "sort" and a.elems and sp is not None and sp[2]:
            return Arr(a)
        sh = (None,) if name == "unique" else a.shape
        if kw:
            return Unknown(alldeps(args, kw))
        rot, wt = (a.rot, a.wt) if a.rot in ("S", Z) or isinstance(a.rot, Bad) else (None, None)
        return Arr(Num(None, sh, None, a.deps, a.dim, rot, wt, a.ang, genterm(name, args, kw), a.isint,
                       None if sp is None else ("span", sp[0], sp[1], True)))
    return f


def np_searchsorted(I, args, kw):
    if args and isinstance(args[0], Union):
        return I.fork_union(args[0], lambda a: np_searchsorted(I, [a] + list(args[1:]), kw))
    a, v = to_n(I, args[0]), to_n(I, args[1])
    if a.elems and v.shape == () and v.term is not None and len(args) == 2 and not kw:
        k = 0
        for e in a.elems:
            s = M.sign_term(T.sub(v.term, e.term)) if e.term is not None else None
            if s == "+":
                k += 1
                continue
            if s in ("-", "0", "<=0"):
                return num_const(k).with_(deps=NODEPS)
            break
        else:
            return num_const(k)
    d = D.dim_same(a.dim, v.dim, "searches")
    b = first_bad([a, v])
    return Num(None, v.shape, None, alldeps(args, kw), b[0] or (d if isinstance(d, Bad) else 0), b[1] or "S", T.ZERO, D.N1,
               genterm("searchsorted", args, kw, False), True)


def np_insert(I, args, kw):
    if args and isinstance(args[0], Union):
        return I.fork_union(args[0], lambda a: np_insert(I, [a] + list(args[1:]), kw))
    if len(args) == 3 and not kw:
        a, i, v = to_n(I, args[0]), to_n(I, args[1]), to_n(I, args[2])
        if a.elems and D.ndim(a) == 1 and i.const is not None and v.shape == ():
            el = list(a.elems)
            el.insert(int(i.const), v)
            return Arr(assemble(el))
        dim, rot, wt, ang = merge_facts([a, v])
        sh = None if a.shape is None else (None,) * len(a.shape)
        sp = M.span_of(a)
        extra = None
        # inserting a value that lies within a sorted range at its place keeps the range
        if sp is not None and sp[2] and v.shape == () and M.nonneg_diff(sp[0], v) and M.nonneg_diff(v, sp[1]) \
                and i.term == genterm("searchsorted", [args[0], args[2]], {}, False):
            extra = ("span", sp[0], sp[1], True)
        return Arr(Num(None, sh, None, alldeps(args, kw), dim, rot if rot in ("S", Z) else None, wt, ang,
                       genterm("insert", args, kw), False, extra))
    return Unknown(alldeps(args, kw))


NP = {
    "unique": np_sorted("unique"), "insert": np_insert, "searchsorted": np_searchsorted,
    "array": np_array(True), "asarray": np_array(False), "asanyarray": np_array(False), "ascontiguousarray": np_array(False),
    "copy": np_array(True), "atleast_1d": np_keep("atl1", None, True), "atleast_2d": np_keep("atl2", None, True),
    "zeros": zeros(0.0), "empty": zeros(0.0), "ones": zeros(1.0), "zeros_like": like(0.0), "empty_like": like(0.0),
    "ones_like": like(1.0), "full": np_full, "eye": np_eye, "identity": np_eye, "linspace": np_linspace, "arange": np_arange,
    "concatenate": np_concat(0), "vstack": np_concat(0), "hstack": np_concat(0), "stack": np_stack, "append": np_append,
    "dot": np_dot, "inner": np_dot, "vdot": np_dot, "matmul": lambda I, a, k: mk(D.n_matmul(to_n(I, a[0]), to_n(I, a[1]))),
    "cross": np_cross, "linalg.norm": np_norm, "linalg.inv": np_linalg_inv, "outer": np_outer,
    "arctan2": np_arctan2, "atan2": np_arctan2, "mod": np_gen2("mod"), "remainder": np_gen2("mod"), "fmod": np_gen2("fmod"),
    "maximum": np_gen2("maximum"), "minimum": np_gen2("minimum"), "hypot": np_gen2("hypot"),
    "power": lambda I, a, k: I.binop("Pow", a[0], a[1]), "square": lambda I, a, k: I.binop("Mult", a[0], a[0]),
    "add": lambda I, a, k: I.binop("Add", a[0], a[1]), "subtract": lambda I, a, k: I.binop("Sub", a[0], a[1]),
    "multiply": lambda I, a, k: I.binop("Mult", a[0], a[1]), "divide": lambda I, a, k: I.binop("Div", a[0], a[1]),
    "true_divide": lambda I, a, k: I.binop("Div", a[0], a[1]), "negative": lambda I, a, k: I.unop("USub", a[0]),
    "floor_divide": lambda I, a, k: I.binop("FloorDiv", a[0], a[1]),
    "sum": np_reduce("sum"), "mean": np_reduce("mean"), "cumsum": np_reduce("cumsum"), "max": np_reduce("max"), "min": np_reduce("min"),
    "amax": np_reduce("max"), "amin": np_reduce("min"), "argmax": np_reduce("argmax"), "argmin": np_reduce("argmin"),
    "any": np_reduce("any"), "all": np_reduce("all"), "ptp": np_reduce("ptp"), "median": np_reduce("median"), "average": np_reduce("mean"),
    "prod": np_reduce("prod"), "std": np_reduce("std"), "var": np_reduce("var"),
    "transpose": np_transpose, "reshape": np_reshape, "flip": np_flip, "interp": np_interp, "where": np_where, "roll": np_roll,
    "ndim": np_ndim, "shape": np_shape, "isclose": np_isclose, "allclose": np_allclose, "array_equal": np_allclose, "block": np_block,
    "einsum": np_einsum, "diag": np_keep("diag"), "pad": np_keep("pad"), "tile": np_keep("tile"), "repeat": np_keep("repeat"),
    "squeeze": np_keep("squeeze", None, True), "ravel": np_keep("ravel", (None,)), "expand_dims": np_keep("expand"), "diff": np_keep("diff"),
    "sort": np_sorted("sort"), "unwrap": np_keep("unwrap"), "clip": np_clip, "flipud": lambda I, a, k: np_flip(I, [a[0], num_const(0)], {}),
    "float64": lambda I, a, k: a[0], "float32": lambda I, a, k: a[0], "int64": bi_int, "int32": bi_int, "int_": bi_int,
    "bool_": BUILTIN["bool"], "isscalar": lambda I, a, k: tri(I, None if to_n(I, a[0]).shape is None else to_n(I, a[0]).shape == (), a[0]),
    "column_stack": np_keep("cstack"), "moveaxis": np_keep("moveaxis"), "swapaxes": np_keep("swapaxes"),
    "radians": np_fn1("radians"), "degrees": np_fn1("degrees"),
    "logical_and": lambda I, a, k: I.and_cond([to_n(I, a[0]), to_n(I, a[1])]), "logical_or": lambda I, a, k: I.and_cond([to_n(I, a[0]), to_n(I, a[1])]),
    "logical_not": lambda I, a, k: mk(M.not_num(to_n(I, a[0]))),
    "errstate": lambda I, a, k: Unknown(), "seterr": lambda I, a, k: NONE, "set_printoptions": lambda I, a, k: NONE,
}
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "asin", "acos", "atan", "exp", "log", "sqrt", "abs", "absolute",
           "fabs", "sign", "floor", "ceil", "round", "around", "rint", "deg2rad", "rad2deg", "sinh", "cosh", "tanh", "trunc"):
    NP[_n] = np_fn1("round" if _n == "around" else _n)

NPCONST = {"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan, "Inf": math.inf, "NaN": math.nan}


# array / scalar methods
def arr_method(name):
    def simple(f):
        return f
    m = {
        "transpose": lambda I, o, a, k: np_transpose(I, [o], {}) if not a else np_keep("transp")(I, [o], {}),
        "reshape": lambda I, o, a, k: np_reshape(I, [o] + list(a), {}),
        "astype": lambda I, o, a, k: mk(_astype(to_n(I, o), a)),
        "copy": lambda I, o, a, k: mk(to_n(I, o)),
        "dot": lambda I, o, a, k: np_dot(I, [o, a[0]], {}),
        "tolist": lambda I, o, a, k: _tolist(I, o),
        "item": lambda I, o, a, k: to_n(I, o).with_(shape=()),
        "flatten": lambda I, o, a, k: _flat(I, o, False), "ravel": lambda I, o, a, k: _flat(I, o, True),
        "fill": lambda I, o, a, k: (M.arr_store(I, o, to_n(I, a[0]).with_(shape=o.n.shape, const=None), True) if isinstance(o, Arr) else None) or NONE,
        "sort": lambda I, o, a, k: (M.arr_store(I, o, o.n.with_(elems=None, term=D.fresh_term("sort", True)), True) if isinstance(o, Arr) else None) or NONE,
        "squeeze": lambda I, o, a, k: np_keep("squeeze", None, True)(I, [o], {}),
        "conj": lambda I, o, a, k: o, "conjugate": lambda I, o, a, k: o, "repeat": lambda I, o, a, k: np_keep("repeat")(I, [o] + list(a), {}),
        "view": lambda I, o, a, k: o, "is_integer": lambda I, o, a, k: I.boolnum(to_n(I, o).deps),
        "clip": lambda I, o, a, k: np_clip(I, [o] + list(a), {}),
    }
    for r in ("sum", "mean", "max", "min", "argmax", "argmin", "any", "all", "cumsum", "prod", "std"):
        m[r] = (lambda rr: lambda I, o, a, k: np_reduce(rr)(I, [o] + list(a), k))(r)
    m["round"] = lambda I, o, a, k: NP["round"](I, [o], {})
    return m.get(name)


def _astype(n, a):
    t = a[0].path if a and isinstance(a[0], Ext) else ""
    if t.endswith("int") or t.endswith("int64"):
        return n.with_(isint=True, const=None, elems=None, term=None if n.term is None else T.app_t("int", n.term))
    if t.endswith("float") or t.endswith("float64"):
        return n
    if "complex" in t or "bool" in t:
        return n.with_(elems=None, const=None, rot=n.rot if n.rot in ("S", Z) or isinstance(n.rot, Bad) else None)
    return n


def _tolist(I, o):
    n = to_n(I, o)
    if n.elems is not None:
        return ListV(list(n.elems))
    if n.shape == ():
        return n
    kind, data, c = iterate(I, o if isinstance(o, Arr) else Arr(n))
    return ListV(data) if kind == "known" else ListV(None, data)


def _flat(I, o, view):
    n = to_n(I, o)
    if D.ndim(n) == 1:
        return Arr(n, (o,) if view and isinstance(o, Arr) else ())
    rot = n.rot if n.rot in ("S", Z) or isinstance(n.rot, Bad) else None
    return Arr(n.with_(shape=(None,), elems=None, rot=rot, term=None if n.term is None else T.app_t("flat", n.term)),
               (o,) if view and isinstance(o, Arr) else ())


# ================================================================= rotations
def rot_obj(n):
    return ExtObj("scipy.Rotation", n)


def euler_word(seq, terms_):
    """matrix term of scipy from_euler(seq, angles)"""
    if seq is None or any(t is None for t in terms_):
        return None
    # angles read back from a matrix
    m = None
    ok = len(terms_) == 3 and len(seq) == 3
    delta = T.ZERO
    if ok:
        for i, t in enumerate(terms_):
            hit = None
            for (w, mono), c in t:
                if w == () and len(mono) == 1 and mono[0][1] == 1 and abs(c - 1) < 1e-9:
                    k = T.atom_key(mono[0][0])
                    if k[0] == "app" and k[1] == "euler" and k[3] == seq and k[4] == i:
                        hit = (k[2], T.sub(t, T.app("euler", k[2], seq, i)))
            if hit is None:
                ok = False
                break
            if m is None:
                m = hit[0]
            if hit[0] != m or (i > 0 and hit[1] != T.ZERO) or (i == 0 and hit[1] != T.ZERO and not seq.islower()):
                ok = False
                break
            if i == 0:
                delta = hit[1]
    if ok and m is not None:
        return T.matmul(m, T.rot(seq[0].lower(), delta))
    r = T.ONE
    for ax, t in zip(seq, terms_):
        q = T.rot(ax.lower(), t)
        r = T.matmul(q, r) if seq.islower() else T.matmul(r, q)
    return r


def euler_facts(I, seq, n, what, isdeg):
    """facts of the rotation matrix given by Euler angles"""
    els = n.elems if (n.elems and D.ndim(n) == 1 and seq and len(seq) == len(n.elems)) else None
    rs = [e.rot for e in els] if els else [n.rot]
    if any(isinstance(r, Bad) for r in rs):
        rk = next(r for r in rs if isinstance(r, Bad))
    elif any(r is None for r in rs):
        rk = None
    elif all(r in ("S", Z) for r in rs):
        rk = "S"
    elif els and len(els) == 3 and all(D._E(r) for r in rs):
        if [r[1] for r in rs] == [seq] * 3 and [r[2] for r in rs] == [0, 1, 2]:
            rk = "F"
        else:
            rk = Bad("%s uses Euler angles in an order other than the one they were extracted in" % what)
    elif any(D._E(r) for r in rs):
        rk = Bad("%s mixes Euler angles of a placed frame with fixed angles" % what)
    elif "C" in rs:
        rk = Bad("%s uses a world coordinate as an angle" % what)
    else:
        rk = None
    dim = 0
    for e in (els or [n]):
        d = D.dim_pure(e, what)
        if isinstance(d, Bad):
            dim = d
            break
    ang = 1.0
    for e in (els or [n]):
        if isinstance(e.ang, Bad):
            ang = e.ang
    if isdeg:
        b = chk_deg(I, n, what)
    else:
        b = None
        for e in (els or [n]):
            b = b or chk_rad(I, e, what)
    if b is not None:
        ang = b
    f = math.pi / 180 if isdeg else 1.0
    if els:
        ts = [None if e.term is None else (T.scale(e.term, f) if isdeg else e.term) for e in els]
    else:
        t0 = None if n.term is None else (T.scale(n.term, f) if isdeg else n.term)
        ts = [t0] if seq and len(seq) == 1 else [None]
    t = euler_word(seq, ts)
    if t is None and n.term is not None and seq:
        t = T.app_t("euler2m", n.term, seq, repr(isdeg))
        T.mark_orth(t)
    return dim, rk, ang, t


def rot_call(I, name, args, kw):
    if name == "from_euler":
        seq = cval(arg(args, kw, 0, "seq"))
        an = to_n(I, arg(args, kw, 1, "angles"))
        isdeg = bool(cval(arg(args, kw, 2, "degrees")) or False)
        dim, rk, ang, t = euler_facts(I, seq, an, "Rotation.from_euler", isdeg)
        stack = an.shape is None or (an.shape != () and not (seq and len(an.shape) == 1 and len(seq) == an.shape[0] and len(seq) > 1))
        if seq and len(seq) == 1 and an.shape == ():
            stack = False
        if seq and len(seq) == 1 and an.shape == (1,):
            stack = True
        if seq and len(seq) == 1 and an.shape is not None and len(an.shape) == 1 and isinstance(an.shape[0], int) and an.shape[0] != 1:
            I.problem("euler", "Rotation.from_euler receives %d angles for one axis" % an.shape[0])
        sh = (3, 3) if not stack else (((an.shape[0] if an.shape else None), 3, 3) if an.shape is not None else None)
        return rot_obj(Num(None, sh, None, an.deps, dim, rk, T.ZERO, ang, t))
    if name == "from_matrix":
        n = to_n(I, args[0])
        if n.term is not None:
            T.mark_orth(n.term)
        return rot_obj(n.with_(elems=None))
    if name == "from_rotvec":
        n = to_n(I, arg(args, kw, 0, "rotvec"))
        rk = n.rot
        if rk == "V":
            rk = "G" if n.wt == T.ZERO else (None if n.wt is None else Bad("rotation vector built from an absolute position"))
        elif rk == Z:
            rk = "S"
        elif rk not in ("S",) and not isinstance(rk, Bad):
            rk = None
        d = D.dim_pure(n, "Rotation.from_rotvec")
        if n.dim is None:
            d = None
        isdeg = bool(cval(arg(args, kw, 1, "degrees")) or False)
        b = chk_deg(I, n, "from_rotvec") if isdeg else chk_rad(I, n, "from_rotvec")
        t = None
        if n.term is not None:
            cs = [T.comp3(n.term, i) for i in range(3)]
            if all(c is not None for c in cs) and sum(c != T.ZERO for c in cs) == 1 and not isdeg:
                i = [c != T.ZERO for c in cs].index(True)
                t = T.rot("xyz"[i], cs[i])
            elif n.term == T.ZERO:
                t = T.ONE
            else:
                t = _rotvec_term(n.term) if not isdeg else T.app_t("rotvecdeg", n.term)
                T.mark_orth(t)
        return rot_obj(Num(None, (3, 3) if D.ndim(n) == 1 else None, None, n.deps, d, rk, T.ZERO, b or (n.ang if isinstance(n.ang, Bad) else D.N1), t))
    if name == "identity":
        return rot_obj(Num(None, (3, 3), None, NODEPS, 0, "S", T.ZERO, D.N1, T.ONE))
    if name == "concatenate":
        return Unknown(alldeps(args, kw))
    ns = [to_n(I, a) for a in args]
    return rot_obj(unknown_from(ns, None, genterm("rot." + name, args, kw)))


def _rotvec_term(t):
    """single rotvec atom; negated vectors become transposes"""
    if t and t[0][1] < 0:
        q = T.app_t("rotvec", T.neg(t))
        T.mark_orth(q)
        return T.transpose(q)
    return T.app_t("rotvec", t)


def rot_attr(I, o, name):
    n = o.n
    if name == "as_matrix":
        return Builtin(name, lambda I, a, k: Arr(n))
    if name == "inv":
        return Builtin(name, lambda I, a, k: rot_obj(tr3(n)))
    if name == "apply":
        def apply(I, a, k):
            v = to_n(I, a[0])
            m = n
            if cval(arg(a, k, 1, "inverse")):
                m = tr3(n)
            return mk(rot_apply(m, v))
        return Builtin(name, apply)
    if name == "as_euler":
        def as_euler(I, a, k):
            seq = cval(arg(a, k, 0, "seq"))
            isdeg = bool(cval(arg(a, k, 1, "degrees")) or False)
            els = []
            for i in range(len(seq) if seq else 3):
                rk = n.rot
                if rk == "F":
                    rk = ("E", seq, i)
                elif rk in ("G", "V", "Ft", "C"):
                    rk = Bad("Euler angles of a rotation that is not a placed frame")
                t = None
                if n.term is not None:
                    t = T.ZERO if n.term == T.ONE else T.app("euler", n.term, seq, i)
                    if isdeg:
                        t = T.scale(t, 180 / math.pi)
                els.append(Num(None, (), None, n.deps, n.dim if isinstance(n.dim, Bad) else 0, rk, T.ZERO,
                               n.ang if isinstance(n.ang, Bad) else (D.DEG if isdeg else 1.0), t))
            r = assemble(els) if len(els) != 1 else els[0]
            if isinstance(els[0].rot, tuple):
                r = r.with_(rot=None)
            return mk(r) if r.shape == () else Arr(r)
        return Builtin(name, as_euler)
    if name == "as_rotvec":
        rk = {"S": "S", "G": "V"}.get(n.rot, n.rot if isinstance(n.rot, Bad) else None)
        return Builtin(name, lambda I, a, k: Arr(Num(None, (3,), None, n.deps, 0, rk, T.ZERO, 1.0,
                                                     None if n.term is None else T.app_t("as_rotvec", n.term))))
    if name == "magnitude":
        rk = {"S": "S", "G": "S"}.get(n.rot, n.rot if isinstance(n.rot, Bad) else None)
        return Builtin(name, lambda I, a, k: Num(None, (), None, n.deps, 0, rk, T.ZERO, 1.0,
                                                 None if n.term is None else T.app("rotmag", n.term)))
    return Builtin(name, lambda I, a, k: I.unk(o, *a))


def tr3(n):
    r = D.n_transpose(n.with_(shape=(3, 3))) if n.shape == (3, 3) else n.with_(
        rot={"F": "Ft", "Ft": "F", "S": "S", "G": "G"}.get(n.rot, n.rot if isinstance(n.rot, Bad) else None))
    return r.with_(term=None if n.term is None else T.transpose(n.term), elems=None)


def rot_apply(m, v):
    t = T.matmul(m.term, v.term) if m.term is not None and v.term is not None else None
    nv = D.ndim(v)
    if m.shape == (3, 3) and nv == 1:
        r = D.n_matmul(m, v)
        rk, wt = r.rot, r.wt
    elif m.shape == (3, 3) and nv == 2:
        r = D.n_matmul(v, tr3(m))
        rk, wt = r.rot, r.wt
    else:
        wt = T.ZERO
        if isinstance(m.rot, Bad):
            rk = m.rot
        elif isinstance(v.rot, Bad):
            rk = v.rot
        elif v.rot == Z:
            rk = Z
        elif m.rot == "S" and v.rot == "S":
            rk = "S"
        else:
            rk = None
    sh = v.shape
    if m.shape != (3, 3):
        sh = (None, 3) if m.shape is not None else None
    return Num(None, sh, None, m.deps | v.deps, D.dim_add(m.dim if isinstance(m.dim, Bad) else 0, v.dim), rk, wt, v.ang if not isinstance(m.ang, Bad) else m.ang, t)


# ================================================================= optimisers
_depth = [0]


def optimise(I, path, args, kw):
    name = path.split(".")[-1]
    fun = args[0]
    x0v = arg(args, kw, 1, "x0", num_const(0))
    if isinstance(fun, Union):
        return I.fork_union(fun, lambda f: optimise(I, path, [f] + list(args[1:]), kw))
    x0 = to_n(I, x0v)
    isjac = bool(cval(kw.get("jac")))
    _depth[0] += 1
    try:
        def run(zdim):
            def one(n, i):
                return Num(None, (), None, n.deps, zdim if n.dim == Z else n.dim, "S" if n.rot == Z else n.rot, n.wt,
                           D.N1 if n.ang == "P" else n.ang, T.scalar(("bv", _depth[0], i)))
            if x0.shape == ():
                els = [one(x0, 0)]
            elif x0.elems is not None:
                els = [one(e, i) for i, e in enumerate(x0.elems)]
            else:
                els = None
            if els is not None:
                x = assemble(els)
            else:
                x = x0.with_(const=None, dim=zdim if x0.dim == Z else x0.dim, rot="S" if x0.rot == Z else x0.rot,
                             term=T.tensor(("bvt", _depth[0])), isint=False)
                if x.shape == ():
                    x = x.with_(shape=(None,))
            r = I.call(fun, [Arr(x)], {})
            if isjac and isinstance(r, TupleV) and r.items:
                r = r.items[0]
            return x, to_n(I, r)
        base = len(I.logs)
        hasz = x0.dim == Z or (x0.elems and any(e.dim == Z for e in x0.elems))
        I.logs.append({})
        x, res = run(0)
        if hasz and isinstance(res.dim, Bad):
            I.rollback(base)
            x1, res1 = run(1)
            if not isinstance(res1.dim, Bad):
                x, res = x1, res1
        I.rollback(base)
        I.logs.pop()
    finally:
        _depth[0] -= 1
    I.may_raise(name)
    deps = res.deps | x0.deps
    for k, v in kw.items():
        deps = deps | deps_of(v)
    rb = res.rot
    if isinstance(rb, Bad):
        rot = rb
    elif rb in ("S", Z):
        rot = "S"
    elif rb == "V":
        rot = "S" if res.wt == T.ZERO else (None if res.wt is None else Bad("solves for an absolute position being zero"))
        if name == "minimize":
            rot = None
    elif rb == "C":
        rot = Bad("solves for a single world coordinate")
    else:
        rot = None
    dimb = res.dim if isinstance(res.dim, Bad) else None
    if res.elems:
        d2, r2, a2 = first_bad(res.elems)
        dimb = dimb or d2
        rot = r2 or rot
    tkey = None
    if res.term is not None and x0.term is not None:
        kt = genterm("optkw", [], {k: v for k, v in kw.items() if k not in ("x0",)}, False)
        tkey = (name, res.term, x0.term, kt if kt is not None else T.ZERO)

    def comp(n, i):
        return Num(None, (), None, deps, dimb or n.dim, rot if not (n.rot not in ("S", Z)) else n.rot, T.ZERO,
                   res.ang if isinstance(res.ang, Bad) else (D.N1 if n.ang == "P" else n.ang),
                   T.app("solve", *(tkey + (T.const(i),))) if tkey else None)
    given = I.solve_hook(name, fun, x0) if I.solve_hook is not None else None
    if given is not None:
        xr = assemble([given])
    elif x.elems is not None:
        xr = assemble([comp(e, i) for i, e in enumerate(x.elems)])
    else:
        xr = x.with_(deps=deps, dim=dimb or x.dim, rot=rot, term=T.app_t("solvev", *tkey) if tkey else None)
    ok = Num(None, (), None, deps, dimb or 0, rot if isinstance(rot, Bad) else "S", T.ZERO,
             res.ang if isinstance(res.ang, Bad) else D.N1, T.app("success", *tkey) if tkey else None)
    un = unknown_from([xr])
    return ExtObj("scipy.OptimizeResult", un, {"x": Arr(xr), "success": ok, "fun": mk(res.with_(const=None, elems=None, term=T.app("optfun", *tkey) if tkey else None)),
                                               "nit": Unknown(), "nfev": Unknown(), "status": Unknown(), "message": Const("<str>"), "root": xr})


# ================================================================= build123d
DEG_KW = {"angle", "start_angle", "end_angle", "angle1", "angle2", "angle3", "rotation", "angles", "u_angle"}
DEG_POS = {"rotate": {1: "angle"}, "make_sphere": {}, "make_circle": {}, "make_cylinder": {}, "make_cone": {},
           "extrude_taper": {2: "taper"}, "revolve": {1: "angle"}}


def bd_facts(I, path, args, kw, recv=None):
    """facts of a kernel object built from the arguments"""
    ns = []

    def walk(v, d=6):
        if isinstance(v, Num):
            if not isinstance(v.const, bool):
                ns.append(v)
        elif isinstance(v, Arr):
            ns.append(v.n)
            if v.n.elems:
                ns.extend(v.n.elems)
        elif isinstance(v, (ExtObj, Unknown)) and v.n is not None:
            if not (isinstance(v, ExtObj) and v.cls == "range"):
                ns.append(v.n)
        elif isinstance(v, TupleV) and d:
            for x in v.items:
                walk(x, d - 1)
        elif isinstance(v, ListV) and d:
            if v.items is not None:
                for x in v.items[:80]:
                    walk(x, d - 1)
            elif v.elem is not None:
                walk(v.elem, d - 1)
        elif isinstance(v, Union):
            for x in v.alts:
                walk(x, d)
        elif isinstance(v, StarV):
            walk(v.elem, d)
    for v in args:
        walk(v)
    for k, v in kw.items():
        if k in DEG_KW or k in ("weights", "keep", "glue", "tol"):
            continue
        walk(v)
    return ns


def bd_merge(I, path, ns, extra_deps, term):
    deps = extra_deps
    for n in ns:
        deps = deps | n.deps
    dim = Z
    for n in ns:
        d = n.dim
        if isinstance(d, Bad):
            dim = d
            break
        if d is None or dim is None:
            dim = None
        elif dim == Z:
            dim = d
        elif d != Z and abs(d - dim) > 1e-9:
            dim = None
    rot, wt = Z, T.ZERO
    for n in ns:
        r = n.rot
        if isinstance(r, Bad):
            rot = r
            break
        if r == Z:
            continue
        if r is None or rot is None:
            rot = None
        elif rot == Z:
            rot, wt = r, n.wt
        elif r != rot:
            rot = None
        elif wt != n.wt:
            wt = None
    ang = 1.0
    for n in ns:
        if isinstance(n.ang, Bad):
            ang = n.ang
            break
    if dim == Z:
        dim = 0
    if rot == Z:
        rot = "S"
    return Num(None, None, None, deps, dim, rot, wt, ang, term)


def bd_angles(I, short, path, args, kw):
    bad = None
    what = path
    for k in kw:
        if k in DEG_KW:
            bad = bad or chk_deg(I, to_n(I, kw[k]), "%s(%s=)" % (short, k))
    for i, nm in DEG_POS.get(short, {}).items():
        if i < len(args) and nm not in kw:
            bad = bad or chk_deg(I, to_n(I, args[i]), "%s()" % short)
    if short == "make_circle":
        # make_circle(radius, plane, start_angle, end_angle)
        for i in (2, 3):
            if i < len(args):
                bad = bad or chk_deg(I, to_n(I, args[i]), "make_circle()")
    return bad


def bd_dims_same(I, ns, what):
    d = Z
    for n in ns:
        d = D.dim_same(d, n.dim, what + " combines")
        if isinstance(d, Bad) or d is None:
            return d
    return d


def prov(I, r, op, recv, args, kw):
    """remember what a kernel object was made of"""
    if I.prov is not None and isinstance(r, ExtObj) and r.cls.startswith("bd"):
        r.a = dict(r.a, src=(op, recv, list(args), dict(kw), I.where()))
        I.prov.append(r)
    return r


def bd_call(I, path, args, kw):
    return prov(I, bd_call0(I, path, args, kw), path.split(".")[-1], None, args, kw)


def bd_call0(I, path, args, kw):
    short = path.split(".")[-1]
    if I.kernel_hook is not None:
        I.kernel_hook(short, args, kw, I.where())
    I.may_raise("build123d " + short)
    extra = NODEPS
    for k in kw:
        extra = extra | deps_of(kw[k], 5)
    for a in args:
        extra = extra | deps_of(a, 6)
    if short == "Location" or short == "Pos" or short == "Rot":
        return bd_location(I, path, args, kw)
    if short == "Rotation" and not any(isinstance(v, (ExtObj, TupleV, Arr)) for v in args) and "axis" not in kw and "rotation" not in kw:
        xyz = [to_n(I, arg(args, kw, i, k, num_const(0))) for i, k in enumerate("XYZ")]
        b = None
        for x, k in zip(xyz, "XYZ"):
            b = b or chk_deg(I, x, "Rotation(%s=)" % k)
        order = arg(args, kw, 3, "ordering")
        kw2 = {"position": num_const(0.0), "orientation": Arr(assemble(xyz))}
        if order is not None:
            kw2["ordering"] = order
        r = bd_location(I, path, [], kw2, free=True)
        return ExtObj(r.cls, r.n.with_(ang=b or r.n.ang), r.a)
    bad = bd_angles(I, short, path, args, kw)
    ns = bd_facts(I, path, args, kw)
    n = bd_merge(I, path, ns, extra, genterm("bd." + short, args, kw))
    if short in ("make_sphere", "make_cone", "make_cylinder", "make_circle", "make_line", "make_bezier", "Vector", "Line", "make_box"):
        dd = bd_dims_same(I, [x for x in ns if x.ang != "never"], short)
        if isinstance(dd, Bad):
            n = n.with_(dim=dd)
    if bad is not None:
        n = n.with_(ang=bad)
    if short in ("make_bezier", "make_bezier_surface", "make_spline"):
        n = bd_pts(I, n, args)
    r = ExtObj("bd." + short, n)
    if I.kernel_hook is not None and short in ("Vector", "Plane"):
        r.a["args"] = tuple(args)
    if short in ("Part", "Solid", "Compound", "BasePartObject", "Shape") and len(args) == 1 and not kw and isinstance(args[0], ExtObj) and "pl" in args[0].a:
        with_pl(r, args[0].a["pl"])
    return r


def bd_pts(I, n, args):
    return n


def pl_of(o):
    """placement of a body: (core value, core deps, linear map, translation, position of its location), terms"""
    p = o.a.get("pl")
    if p is None:
        n = o.n
        t = n.term if n.term is not None else D.fresh_term("body", True)
        p = (t, n.deps, T.ONE, T.ZERO, T.ZERO)
    return p


def pl_scale(p, s):
    if p is None or s is None or p[4] is None:
        return None
    core, deps, A, b, l = p
    # a shape is scaled about the position of its location
    b2 = T.add(l, T.mul(s, T.sub(b, l)))
    return (core, deps, T.mul(s, A), b2, T.ZERO if l == T.ZERO else None)


def pl_move(p, m, c):
    if p is None or m is None or c is None:
        return None
    core, deps, A, b, l = p
    mv = lambda x: x if x is None else T.matmul(m, x) if m != T.ONE else x
    return (core, deps, T.matmul(m, A), T.add(mv(b), c), None if l is None else T.add(mv(l), c))


def with_pl(o, p):
    if p is not None:
        o.a = dict(o.a, pl=p)
    else:
        o.a = dict(o.a, pl=(D.fresh_term("body", True), o.n.deps, None, None, None))
    return o


def bd_location(I, path, args, kw, free=False):
    pos = arg(args, kw, 0, "position")
    ori = arg(args, kw, 1, "orientation")
    order = arg(args, kw, 2, "ordering")
    pn = to_n(I, pos) if pos is not None else num_const(0.0)
    deps = pn.deps
    if pos is not None and isinstance(pos, ExtObj) and ori is None:
        return ExtObj("bd.Location", pn)
    if ori is None:
        rk, wt = pn.rot, pn.wt
        if rk == "V":
            rk = Bad("places a body without the orientation of its frame") if pn.wt == T.ONE else None
        t = T.app_t("loc", pn.term, T.ONE) if pn.term is not None else None
        return ExtObj("bd.Location", Num(None, None, None, deps, pn.dim, rk, wt, pn.ang if isinstance(pn.ang, Bad) else 1.0, t), {"m": T.ONE, "c": pn.term})
    on = to_n(I, ori)
    deps = deps | on.deps
    seq = "XYZ"
    if isinstance(order, Ext):
        seq = order.path.split(".")[-1]
        seq = seq.lower() if ".Extrinsic." in order.path else seq.upper()
    elif order is not None:
        seq = None
    if isinstance(ori, ExtObj):
        return ExtObj("bd.Location", bd_merge(I, path, [pn, on], deps, genterm("loc?", args, kw)))
    dim, rk, ang, mt = euler_facts(I, seq, on, "Location orientation", True)
    if rk == "F":
        if pn.rot == "V":
            rr, wt = ("V", pn.wt)
            if pn.wt is not None and pn.wt != T.ONE:
                rr = Bad("placement position does not move with the frame")
        elif pn.rot in ("S", Z):
            rr, wt = (Bad("places a body by the frame's orientation but not its centre") if not free else None), T.ZERO
        else:
            rr, wt = pn.rot if isinstance(pn.rot, Bad) else None, None
    elif rk == "S":
        if pn.rot == "V":
            rr, wt = Bad("places a body by the frame's centre but not its orientation"), None
        else:
            rr, wt = ("S" if pn.rot == Z else pn.rot), T.ZERO
    else:
        rr, wt = rk, None
    if isinstance(pn.ang, Bad):
        ang = pn.ang
    d = pn.dim if not isinstance(dim, Bad) else dim
    t = T.app_t("loc", pn.term, mt) if pn.term is not None and mt is not None else None
    return ExtObj("bd.Location", Num(None, None, None, deps, d, rr, wt, ang, t), {"m": mt, "c": pn.term})


def bd_method(I, o, name):
    def call(I, args, kw):
        return prov(I, call0(I, args, kw), name, o, args, kw)

    def call0(I, args, kw):
        n = o.n
        if name in ("__init__",):
            return NONE
        extra = n.deps
        for v in list(args) + list(kw.values()):
            extra = extra | deps_of(v, 6)
        t = genterm("m." + name, [o] + list(args), kw)
        if name == "scale":
            s = to_n(I, arg(args, kw, 0, "scale"))
            I.may_raise("build123d scale")
            d = D.dim_add(n.dim, s.dim)
            rk = n.rot
            if isinstance(s.rot, Bad):
                rk = s.rot
            elif rk == "V":
                rk = None
            ab = arg(args, kw, 1, "about")
            return with_pl(ExtObj(o.cls, n.with_(deps=extra, dim=d, rot=rk, term=T.app_t("bdscale", n.term, s.term) if n.term is not None and s.term is not None else None)),
                           pl_scale(pl_of(o), s.term if s.shape == () else None) if ab is None else None)
        if name in ("translate", "move", "moved", "locate", "located", "relocate"):
            v = to_n(I, args[0])
            d = D.dim_same(n.dim, v.dim, "moves a body of one unit by a vector of another: combines")
            rk, wt = n.rot, n.wt
            if isinstance(v.rot, Bad):
                rk = v.rot
            elif v.rot == "V" and rk == "S":
                rk, wt = (Bad("translates a body to a placed position without its orientation"), None) if not (isinstance(args[0], ExtObj) and args[0].cls == "bd.Location") else ("V", v.wt)
            elif v.rot not in ("S", Z):
                rk = None
            r = ExtObj(o.cls, n.with_(deps=extra, dim=d, rot=rk, wt=wt, term=t))
            p = None
            if name in ("translate", "move", "moved"):
                if isinstance(args[0], ExtObj) and args[0].cls == "bd.Location":
                    p = pl_move(pl_of(o), args[0].a.get("m"), args[0].a.get("c"))
                elif name == "translate":
                    p = pl_move(pl_of(o), T.ONE, v.term)
            return with_pl(r, p)
        if name == "rotate":
            b = bd_angles(I, "rotate", name, [o] and ([None] and list(args)), kw)
            if len(args) > 1 and "angle" not in kw:
                b = chk_deg(I, to_n(I, args[1]), "rotate()")
            rk = n.rot
            av = to_n(I, arg(args, kw, 1, "angle", num_const(0)))
            if isinstance(av.rot, Bad):
                rk = av.rot
            d = n.dim
            if isinstance(av.dim, Bad):
                d = av.dim
            elif isinstance(D.dim_pure(av, "rotate()"), Bad):
                d = D.dim_pure(av, "rotate()")
            if rk == "V":
                rk = None
            ax = args[0] if args else kw.get("axis")
            p = None
            if isinstance(ax, Ext) and ax.path.split(".")[-2:-1] == ["Axis"] and ax.path[-1] in "XYZ" and av.term is not None:
                p = pl_move(pl_of(o), T.rot(ax.path[-1].lower(), T.scale(av.term, math.pi / 180)), T.ZERO)
            return with_pl(ExtObj(o.cls, n.with_(deps=extra, ang=b or n.ang, rot=rk, dim=d, term=t)), p)
        if name in ("fuse", "cut", "intersect", "__add__", "split", "clean", "fix", "faces", "edges", "wires", "vertices", "solids",
                    "solid", "face", "wire", "edge", "sort_by", "sort_by_distance", "filter_by", "group_by", "shells", "offset",
                    "first", "last", "moved", "mirror", "extrude", "fillet", "chamfer", "rotated", "copy"):
            I.may_raise("build123d " + name)
            bd_angles(I, name, name, args, kw)
            ns = [n] + bd_facts(I, name, args, kw)
            r = bd_merge(I, name, ns, extra, t)
            if name in ("fuse", "cut", "intersect", "__add__", "split"):
                dd = bd_dims_same(I, ns, name)
                if isinstance(dd, Bad):
                    r = r.with_(dim=dd)
            return ExtObj(o.cls, r)
        if name in ("bounding_box", "center", "position_at", "tangent_at", "normal_at", "to_tuple", "to_align_offset"):
            return ExtObj("bd." + name, n.with_(deps=extra, term=t))
        if name in ("is_valid", "is_closed"):
            return I.boolnum(extra)
        bd_angles(I, name, name, args, kw)
        ns = [n] + bd_facts(I, name, args, kw)
        return ExtObj("bd." + name, bd_merge(I, name, ns, extra, t))
    return Builtin(name, call)


def binop(I, op, a, b):
    return prov(I, binop0(I, op, a, b), op, None, [a, b], {})


def binop0(I, op, a, b):
    if isinstance(a, ExtObj) and a.cls == "scipy.Rotation" and isinstance(b, ExtObj) and b.cls == "scipy.Rotation":
        x, y = a.n, b.n
        r = D.n_matmul(x.with_(shape=(3, 3)), y.with_(shape=(3, 3)))
        sh = (3, 3) if x.shape == (3, 3) and y.shape == (3, 3) else ((None, 3, 3) if x.shape is not None and y.shape is not None else None)
        t = T.matmul(x.term, y.term) if x.term is not None and y.term is not None else None
        return rot_obj(r.with_(shape=sh, term=t))
    if isinstance(a, ExtObj) and a.cls.startswith("bd") or isinstance(b, ExtObj) and b.cls.startswith("bd"):
        na = a.n if isinstance(a, ExtObj) else None
        if op == "Mult" and isinstance(a, ExtObj) and a.cls in ("bd.Location", "bd.Plane"):
            nb = to_n(I, b)
            d = D.dim_same(na.dim, nb.dim, "places a body of one unit at a position of another: combines")
            if isinstance(nb.rot, Bad):
                rk, wt = nb.rot, None
            elif isinstance(na.rot, Bad):
                rk, wt = na.rot, None
            elif nb.rot in ("S", Z):
                rk, wt = na.rot, na.wt
            else:
                rk, wt = None, None
            t = T.app_t("placed", na.term, nb.term) if na.term is not None and nb.term is not None else None
            r = ExtObj(b.cls if isinstance(b, ExtObj) else "bd.obj", Num(None, None, None, na.deps | nb.deps, d, rk, wt,
                       na.ang if isinstance(na.ang, Bad) else nb.ang, t))
            if isinstance(b, ExtObj) and b.cls in ("bd.Location", "bd.Plane"):
                if None not in (a.a.get("m"), a.a.get("c"), b.a.get("m"), b.a.get("c")):
                    r.a = {"m": T.matmul(a.a["m"], b.a["m"]),
                           "c": T.add(T.matmul(a.a["m"], b.a["c"]) if a.a["m"] != T.ONE else b.a["c"], a.a["c"])}
            elif isinstance(b, ExtObj):
                with_pl(r, pl_move(pl_of(b), a.a.get("m"), a.a.get("c")))
            return r
        ns = bd_facts(I, op, [a, b], {})
        deps = deps_of(a, 6) | deps_of(b, 6)
        r = bd_merge(I, op, ns, deps, genterm("bd" + op, [a, b], {}))
        if op in ("Add", "Sub", "BitAnd"):
            dd = bd_dims_same(I, ns, op)
            if isinstance(dd, Bad):
                r = r.with_(dim=dd)
        I.may_raise("build123d " + op)
        return ExtObj(a.cls if isinstance(a, ExtObj) else b.cls, r)
    return I.unk(a, b)


# ================================================================= attribute access on externals
def list_method(I, l, name):
    def append(I, a, k):
        M.list_append(I, l, a[0])
        return NONE

    def extend(I, a, k):
        M.list_extend(I, l, a[0])
        return NONE

    def insert(I, a, k):
        c = cval(a[0])
        if l.items is not None and c is not None:
            x = list(l.items)
            x.insert(int(c), a[1])
            I.write(l.d, "items", tuple(x))
        else:
            M.to_summary(I, l)
            M.list_append(I, l, a[1])
        return NONE

    def pop(I, a, k):
        c = cval(a[0]) if a else -1
        if l.items is not None and c is not None and -len(l.items) <= c < len(l.items):
            x = list(l.items)
            v = x.pop(int(c))
            I.write(l.d, "items", tuple(x))
            return v
        if l.items is not None and not l.items:
            I.exit_to("raise", NONE)
        M.to_summary(I, l)
        return l.elem if l.elem is not None else Unknown()

    def reverse(I, a, k):
        if l.items is not None:
            I.write(l.d, "items", tuple(reversed(l.items)))
        return NONE

    def clear(I, a, k):
        I.write(l.d, "items", ())
        return NONE

    def copy(I, a, k):
        r = ListV(())
        r.d["items"] = l.d["items"]
        return r

    def sort(I, a, k):
        r = bi_sorted(I, [l], k)
        I.write(l.d, "items", r.d["items"])
        return NONE

    def remove(I, a, k):
        if l.items is not None:
            for i, x in enumerate(l.items):
                if I.same(x, a[0]):
                    I.write(l.d, "items", l.items[:i] + l.items[i + 1:])
                    return NONE
        M.to_summary(I, l)
        return NONE

    def index(I, a, k):
        if l.items is not None:
            for i, x in enumerate(l.items):
                r = I.truth(I.compare("Eq", x, a[0])) if not isinstance(x, Union) else None
                if r is True:
                    return num_const(i)
                if r is not False:
                    I.may_raise("list.index")
                    return Num(None, (), None, deps_of(l) | deps_of(a[0]), 0, "S", T.ZERO, D.N1, D.fresh_term("ix"), True)
            I.exit_to("raise", NONE)
        I.may_raise("list.index")
        return Num(None, (), None, deps_of(l) | deps_of(a[0]), 0, "S", T.ZERO, D.N1, D.fresh_term("ix"), True)

    def count(I, a, k):
        return Num(None, (), None, deps_of(l), 0, "S", T.ZERO, D.N1, D.fresh_term("cnt"), True)

    def add(I, a, k):
        M.list_append(I, l, a[0])
        return NONE
    return {"append": append, "extend": extend, "insert": insert, "pop": pop, "reverse": reverse, "clear": clear, "copy": copy,
            "sort": sort, "remove": remove, "index": index, "count": count, "add": add, "discard": remove, "update": extend}.get(name)


def dict_method(I, o, name):
    def get(I, a, k):
        kk = M.dkey(a[0])
        dflt = a[1] if len(a) > 1 else NONE
        if kk is not None and kk in o.d:
            return o.d[kk]
        if kk is not None and UNK not in o.d:
            return dflt
        vs = list(o.d.values()) + [dflt]
        return I.join_all(vs, I.boolnum(deps_of(a[0])))

    def items(I, a, k):
        if UNK in o.d:
            return ListV(None, TupleV([Unknown(), I.join_all(list(o.d.values()))]))
        return ListV([TupleV([_kconst(I, kk), v]) for kk, v in o.d.items()])

    def keys(I, a, k):
        if UNK in o.d:
            return ListV(None, Unknown())
        return ListV([_kconst(I, kk) for kk in o.d])

    def values(I, a, k):
        if UNK in o.d:
            return ListV(None, I.join_all(list(o.d.values())))
        return ListV(list(o.d.values()))

    def update(I, a, k):
        for x in a:
            if isinstance(x, DictV):
                for kk, v in list(x.d.items()):
                    I.write(o.d, kk, v)
            else:
                y = bi_dict(I, [x], {})
                for kk, v in y.d.items():
                    I.write(o.d, kk, v)
        for kk, v in k.items():
            I.write(o.d, kk, v)
        return NONE

    def pop(I, a, k):
        kk = M.dkey(a[0])
        if kk is not None and kk in o.d:
            v = o.d[kk]
            I.delete(o.d, kk)
            return v
        if len(a) > 1:
            return a[1]
        if UNK in o.d:
            return o.d[UNK]
        I.exit_to("raise", NONE)

    def setdefault(I, a, k):
        kk = M.dkey(a[0])
        if kk is not None:
            if kk not in o.d:
                I.write(o.d, kk, a[1] if len(a) > 1 else NONE)
            return o.d[kk]
        return Unknown()

    def copy(I, a, k):
        r = DictV()
        r.d.update(o.d)
        return r

    def clear(I, a, k):
        for kk in list(o.d):
            I.delete(o.d, kk)
        return NONE
    return {"get": get, "items": items, "keys": keys, "values": values, "update": update, "pop": pop, "setdefault": setdefault,
            "copy": copy, "clear": clear}.get(name)


def _kconst(I, k):
    return I.const(k) if isinstance(k, (str, int, float)) else Unknown()


def getattr(I, o, name):
    if isinstance(o, Ext):
        p = o.path
        if p in ("numpy", "math") and name in NPCONST:
            return num_const(NPCONST[name])
        if p == "math" and name == "tau":
            return num_const(2 * math.pi)
        if p == "numpy" and name == "newaxis":
            return NONE
        return Ext(p + "." + name)
    if isinstance(o, (Arr, Num)):
        n = o.n if isinstance(o, Arr) else o
        if name == "shape":
            return shape_value(n)
        if name == "ndim":
            return np_ndim(I, [o], {})
        if name == "size":
            if n.shape is not None and all(isinstance(q, int) for q in n.shape):
                r = 1
                for q in n.shape:
                    r *= q
                return num_const(r)
            return Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, T.app("size", n.term) if n.term is not None else None, True)
        if name == "T":
            return np_transpose(I, [o], {})
        if name in ("real", "imag"):
            return mk(n) if name == "real" else mk(n.with_(const=None, elems=None, term=None if n.term is None else T.app("imag", n.term)))
        if name == "dtype":
            return Unknown()
        m = arr_method(name)
        if m is not None:
            return Builtin(name, lambda I, a, k: m(I, o, a, k))
        if isinstance(o, Num) and n.shape == () or name.startswith("__"):
            return Builtin(name, lambda I, a, k: I.unk(o, *a))
        return Builtin(name, lambda I, a, k: mk(unknown_from([n])))
    if isinstance(o, ListV):
        m = list_method(I, o, name)
        if m is not None:
            return Builtin("list." + name, m)
        return Builtin(name, lambda I, a, k: I.unk(o, *a))
    if isinstance(o, DictV):
        m = dict_method(I, o, name)
        if m is not None:
            return Builtin("dict." + name, m)
        return Builtin(name, lambda I, a, k: I.unk(o, *a))
    if isinstance(o, TupleV):
        if name == "index":
            return Builtin("index", list_method(I, ListV(o.items), "index"))
        return Builtin(name, lambda I, a, k: I.unk(o, *a))
    if isinstance(o, Const):
        if o.v is None:
            I.problem("none", "attribute '%s' of None" % name)
            I.exit_to("raise", NONE)
        return Builtin(name, str_method(o, name))
    if isinstance(o, ExtObj):
        if name in o.a:
            return o.a[name]
        if o.cls == "scipy.Rotation":
            return rot_attr(I, o, name)
        if o.cls.startswith("bd"):
            if name in ("volume", "area", "length", "radius", "X", "Y", "Z", "x", "y", "z"):
                e = {"volume": 3, "area": 2}.get(name, 1)
                d = o.n.dim * e if isinstance(o.n.dim, (int, float)) else o.n.dim
                rk = o.n.rot
                if rk == "V":
                    rk = "S" if name in ("volume", "area", "length", "radius") else "C"
                if name in ("X", "Y", "Z") and o.n.rot == "V":
                    rk = "C"
                return Num(None, (), None, o.n.deps, d, rk, T.ZERO, D.N1, T.app("bda." + name, o.n.term) if o.n.term is not None else None)
            if name in ("location", "position", "orientation", "wrapped", "color", "label", "children", "center_location"):
                if name in ("position",):
                    return ExtObj("bd.Vector", o.n)
                return ExtObj("bd." + name, o.n.with_(rot=None if not isinstance(o.n.rot, Bad) else o.n.rot))
            return bd_method(I, o, name)
        return Builtin(name, lambda I, a, k: I.unk(o, *a))
    if isinstance(o, (Func, Bound, Builtin, PartialV)):
        if name == "__self__" and isinstance(o, Bound):
            return o.self_
        if name in ("__func__",) and isinstance(o, Bound):
            return o.func
        if name in ("__name__", "__qualname__", "__doc__", "__module__"):
            return Const("<name>")
        if isinstance(o, Func) and name in o.d:
            return o.d[name]
        if name == "cache_clear" and isinstance(o, Func):
            def cc(I, a, k):
                o.memo = {}
                return NONE
            return Builtin(name, cc)
        return Unknown()
    return Unknown(deps_of(o))


def str_method(o, name):
    def f(I, a, k):
        try:
            av = [x.v if isinstance(x, Const) else x.const for x in a]
            if name in ("upper", "lower", "strip", "replace", "startswith", "endswith", "split", "title", "capitalize", "isdigit") and all(
                    isinstance(x, (str, int)) for x in av) and "<" not in o.v:
                r = str.__dict__[name](o.v, *av)
                if isinstance(r, bool):
                    return num_const(r)
                if isinstance(r, list):
                    return ListV([Const(x) for x in r])
                return Const(r)
        except Exception:
            pass
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return I.boolnum()
        return Const("<str>")
    return f


# ================================================================= calls
def call(I, path, args, kw):
    if path.startswith("builtins."):
        f = BUILTIN.get(path[9:])
        if f is not None:
            return f(I, args, kw)
        if path.endswith("Error") or path.endswith("Exception") or path.endswith("Warning"):
            return ExtObj(path, D.unknown(), {"args": Unknown()})
        return I.unk(*args, *kw.values())
    if path.startswith("numpy."):
        nm = path[6:]
        f = NP.get(nm)
        args = [a if not isinstance(a, StarV) else ListV(None, a.elem) for a in args]
        if f is None:
            f = np_generic(nm)
        if args and isinstance(args[0], Union) and nm not in ("array", "asarray"):
            return I.fork_union(args[0], lambda a: call(I, path, [a] + list(args[1:]), kw))
        return f(I, args, kw)
    if path.startswith("math."):
        nm = path[5:]
        if nm in ("atan2",):
            return np_arctan2(I, args, kw)
        if nm in ("isclose",):
            return np_isclose(I, args, kw)
        if nm in ("floor", "ceil"):
            return mk(D.n_fn(nm, to_n(I, args[0])).with_(isint=True))
        if nm in ("hypot", "fmod"):
            return np_gen2(nm)(I, args, kw)
        if nm == "pow":
            return I.binop("Pow", args[0], args[1])
        return np_fn1(nm)(I, args, kw)
    if path.startswith("scipy.spatial.transform.Rotation"):
        nm = path.split(".")[-1]
        if args and isinstance(args[-1], Union):
            return I.fork_union(args[-1], lambda a: call(I, path, list(args[:-1]) + [a], kw))
        return rot_call(I, nm, args, kw)
    if path in ("scipy.optimize.root", "scipy.optimize.minimize", "scipy.optimize.fsolve", "scipy.optimize.root_scalar",
                "scipy.optimize.minimize_scalar", "scipy.optimize.least_squares", "scipy.optimize.brentq"):
        r = optimise(I, path, args, kw)
        if path.endswith("fsolve"):
            return r.a["x"]
        return r
    if path == "scipy.special.comb":
        ns = [to_n(I, a) for a in args]
        if all(n.const is not None for n in ns):
            try:
                return num_const(math.comb(int(ns[0].const), int(ns[1].const)))
            except Exception:
                pass
        return mk(Num(None, D.bshape(ns[0].shape, ns[1].shape), None, alldeps(args, kw), 0, "S", T.ZERO, D.N1, genterm("comb", args, {})))
    if path == "copy.deepcopy":
        return M.deepcopy(I, args[0])
    if path == "copy.copy":
        return M.shallow(I, args[0])
    if path == "dataclasses.field":
        df = kw.get("default")
        return FieldV(df, kw.get("default_factory"), cval(kw.get("init")) is not False)
    if path == "dataclasses.dataclass":
        if args:
            return args[0]
        return PartialV(Ext("dataclasses.dataclass"), [], kw)
    if path == "dataclasses.replace":
        o = args[0]
        if isinstance(o, Instance) and o.cls.dc:
            vals = {k: o.d[k] for k, f in o.cls.dc if f.init and k in o.d}
            vals.update(kw)
            return I.instantiate(o.cls, [], vals)
        return I.unk(*args)
    if path in ("dataclasses.asdict", "dataclasses.astuple"):
        o = args[0]
        if isinstance(o, Instance) and o.cls.dc:
            c = M.deepcopy(I, o)
            if path.endswith("asdict"):
                return DictV({k: c.d[k] for k, f in o.cls.dc if k in c.d})
            return TupleV([c.d[k] for k, f in o.cls.dc if k in c.d])
        return I.unk(*args)
    if path == "dataclasses.fields":
        o = args[0]
        c = o.cls if isinstance(o, Instance) else o
        if isinstance(c, ClassV) and c.dc:
            return TupleV([ExtObj("dataclasses.Field", D.unknown(), {"name": Const(k), "default": f.default or Unknown()}) for k, f in c.dc])
        return Unknown()
    if path == "functools.partial":
        return PartialV(args[0], list(args[1:]), kw)
    if path == "functools.wraps":
        return Builtin("wraps", lambda I, a, k: a[0])
    if path in ("functools.lru_cache", "functools.cache"):
        if args and isinstance(args[0], Func):
            args[0].memo = {}
            return args[0]
        return Ext("functools.lru_cache")
    if path == "functools.reduce":
        (k, d, c), = seqs(I, args[1:2])
        if k == "known":
            it = list(d)
            acc = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                acc = I.call(args[0], [acc, x], {})
            return acc
        return I.unk(*args)
    if path.startswith("itertools."):
        nm = path[10:]
        s = seqs(I, args)
        if nm == "chain":
            if all(k == "known" for k, d, c in s):
                return ListV([x for k, d, c in s for x in d])
            es = [x for k, d, c in s for x in (d if k == "known" else [d]) if x is not None]
            return ListV(None, I.join_all(es) if es else None)
        if nm == "pairwise" and s and s[0][0] == "known":
            d = s[0][1]
            return ListV([TupleV(x) for x in zip(d[:-1], d[1:])])
        if nm in ("product", "combinations", "permutations", "islice", "repeat", "cycle", "accumulate", "count"):
            return ListV(None, Unknown(alldeps(args, kw)))
        return Unknown(alldeps(args, kw))
    if path.startswith("operator."):
        nm = path[9:]
        ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "matmul": "MatMult"}
        if nm in ops and len(args) == 2:
            return I.binop(ops[nm], args[0], args[1])
        if nm == "attrgetter" and isinstance(args[0], Const):
            at = args[0].v
            return Builtin("attrgetter", lambda I, a, k: I.getattr(a[0], at))
        if nm == "itemgetter":
            ix = args[0]
            return Builtin("itemgetter", lambda I, a, k: M.getitem(I, a[0], ix))
        return Unknown(alldeps(args, kw))
    if path.startswith(("logging.", "warnings.", "time.", "sys.", "os.", "typing.", "abc.")):
        if path == "typing.cast":
            return args[1]
        if path.startswith("time."):
            return Num(None, (), None, NODEPS, 0, "S", T.ZERO, D.N1, D.fresh_term("time"))
        return NONE if not path.startswith(("os.", "sys.", "typing.", "abc.")) else Unknown()
    if path.startswith("types."):
        if path == "types.MethodType":
            return Bound(args[1], args[0])
        if path == "types.SimpleNamespace":
            return Unknown()
    if path.startswith(("build123d.", "build123d")):
        # classmethod style constructors on an instance's class, e.g. bd.Solid.fuse(a, b)
        return bd_call(I, path, args, kw)
    if path == "collections.namedtuple":
        return Unknown()
    if path.startswith("collections."):
        if path.endswith("defaultdict"):
            return DictV()
        if path.endswith("deque") or path.endswith("OrderedDict"):
            return bi_list(I, args, {}) if path.endswith("deque") else bi_dict(I, args, kw)
    I.may_raise(path)
    I.M.escape(I, args, kw)
    return I.unk(*args, *kw.values())
