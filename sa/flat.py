"""Reachable abstract state: flattening, comparison, sharing."""
import ast
from . import terms as T
from .domains import Num
from .values import *

STRUCT = ("e", "in", "app", "rot", "T", "big")


def atoms(t, out=None, seen=None):
    """all atoms occurring (at any depth) in a term"""
    if out is None:
        out = set()
    if t is None:
        return out
    for (w, m), _ in t:
        for a in w:
            _atom(a, out)
        for a, _e in m:
            _atom(a, out)
    return out


def _atom(a, out):
    if a in out:
        return
    out.add(a)
    k = T.atom_key(a)
    if k[0] == "app":
        for x in k[2:]:
            if isinstance(x, tuple):
                _sub(x, out)
    elif k[0] == "T":
        _atom(k[1], out)
    elif k[0] == "rot":
        _sub(k[2], out)
    elif k[0] == "big":
        for (wm, _c) in k[1]:
            for x in wm[0]:
                _atom(x, out)
            for x, _e in wm[1]:
                _atom(x, out)


def _sub(x, out):
    # argument of an application: a term, or some hashable payload
    for it in x:
        if (isinstance(it, tuple) and len(it) == 2 and isinstance(it[0], tuple) and len(it[0]) == 2
                and isinstance(it[0][0], tuple) and isinstance(it[1], float)):
            for a in it[0][0]:
                if isinstance(a, int):
                    _atom(a, out)
            for ae in it[0][1]:
                if isinstance(ae, tuple) and isinstance(ae[0], int):
                    _atom(ae[0], out)
        elif isinstance(it, tuple):
            _sub(it, out)


def is_fresh(a):
    k = T.atom_key(a)
    return k[0] not in STRUCT and len(k) == 2 and isinstance(k[1], int)


def exact(t):
    """the term is known and contains no unknown sub-value"""
    return t is not None and not any(is_fresh(a) for a in atoms(t))


def labels(t):
    """input labels occurring in a term"""
    r = set()
    for a in atoms(t):
        k = T.atom_key(a)
        if k[0] == "in":
            r.add(k[1])
    return r


def nterm(v):
    if isinstance(v, Num):
        return v.term
    if isinstance(v, (Arr, ExtObj, Unknown)):
        return v.n.term if v.n is not None else None
    return None


_free = {}


def free_vars(node):
    r = _free.get(id(node))
    if r is None:
        loaded, stored = set(), set()
        # default arguments and decorators belong to the enclosing scope
        body = node.body if isinstance(node.body, list) else [node.body]
        walk = [x for b in body for x in ast.walk(b)] + [x for a in (node.args.posonlyargs + node.args.args + node.args.kwonlyargs
                                                                     + [y for y in (node.args.vararg, node.args.kwarg) if y]) for x in (a,)]
        for x in walk:
            if isinstance(x, ast.Name):
                (loaded if isinstance(x.ctx, ast.Load) else stored).add(x.id)
            elif isinstance(x, ast.arg):
                stored.add(x.arg)
        r = (node, sorted(loaded - stored), )
        _free[id(node)] = r
    return r[1]


def captured(f):
    """(name, value) of the variables a function captures from enclosing functions"""
    out = []
    if f.env is None:
        return out
    for n in free_vars(f.node):
        x = f.env
        while x is not None:
            if not isinstance(x.func, ClassV) and n in x.d:
                out.append((n, x.d[n]))
                break
            x = x.parent
    for i, d in enumerate(list(f.defaults) + [k for k in f.kwdefaults if k is not None]):
        out.append(("default%d" % i, d))
    return out


def children(v):
    """(label, value) pairs of a heap value; None for leaves"""
    if isinstance(v, (Instance, DictV)):
        return [("." + str(k), x) for k, x in v.d.items()]
    if isinstance(v, TupleV):
        return [("[%d]" % i, x) for i, x in enumerate(v.items)]
    if isinstance(v, ListV):
        if v.items is not None:
            return [("[%d]" % i, x) for i, x in enumerate(v.items)]
        return [("[*]", v.elem)] if v.elem is not None else []
    if isinstance(v, Union):
        return [("|%d" % i, x) for i, x in enumerate(v.alts)]
    if isinstance(v, Func):
        return [("<%s>" % n, x) for n, x in captured(v)]
    if isinstance(v, Bound):
        return [("<self>", v.self_)]
    if isinstance(v, PartialV):
        return [("<f>", v.func)] + [("<a%d>" % i, x) for i, x in enumerate(v.args)] + [("<%s>" % k, x) for k, x in v.kw.items()]
    return None


def flatten(root, name="", skip=(), depth=40):
    """path -> leaf of everything reachable from a value"""
    out = {}
    seen = {}
    st = [(name, root, 0)]
    while st:
        path, v, d = st.pop()
        if any(path.endswith(s) for s in skip):
            continue
        if isinstance(v, V) and not isinstance(v, Arr):
            if v.uid in seen:
                out[path] = ("ref", seen[v.uid])
                continue
            seen[v.uid] = path
        if isinstance(v, Arr):
            out[path] = ("num", v.n)
            continue
        if isinstance(v, Num):
            out[path] = ("num", v)
            continue
        ch = children(v)
        if ch is None:
            if isinstance(v, (ExtObj, Unknown)):
                out[path] = ("ext", v)
            elif isinstance(v, Const):
                out[path] = ("const", v.v if not isinstance(v.v, (list, dict)) else repr(v.v))
            else:
                out[path] = ("ref", repr(v))
            continue
        if isinstance(v, Func):
            out[path] = ("func", v.qual)
        elif isinstance(v, Bound):
            out[path] = ("func", repr(v.func))
        elif isinstance(v, ListV) and v.items is not None:
            out[path + "#"] = ("len", len(v.items))
        elif isinstance(v, Instance):
            out[path + "#"] = ("cls", v.cls.name)
        if d < depth:
            st.extend((path + l, x, d + 1) for l, x in ch)
    return out


def leaf_same(a, b):
    """True / False / None (cannot tell)"""
    if a[0] == "num" and b[0] == "num":
        x, y = a[1], b[1]
        if x is y:
            return True
        if x.const is not None and y.const is not None:
            return x.const == y.const
        if x.term is not None and x.term == y.term:
            return True
        if x.term is None or y.term is None:
            return None
        if exact(x.term) and exact(y.term):
            from . import rint
            r = rint.eq(x.term, y.term)
            if r is None and labels(x.term) != labels(y.term):
                return False
            return r
        # an unknown value replaced by another one: only what it may depend on is comparable
        if not exact(x.term) and not exact(y.term):
            return None
        return False
    if a[0] == "ext" and b[0] == "ext":
        if a[1] is b[1]:
            return True
        x, y = a[1].n, b[1].n
        if x is not None and y is not None and x.term is not None and x.term == y.term:
            return True
        return None
    if a[0] == "ext" or b[0] == "ext":
        return None
    return a == b


def diff(before, after):
    """(changed, undecided) paths"""
    ch, un = [], []
    for p in sorted(set(before) | set(after)):
        if p not in before or p not in after:
            ch.append(p)
            continue
        s = leaf_same(before[p], after[p])
        if s is False:
            ch.append(p)
        elif s is None:
            un.append(p)
    return ch, un


def reach(root, limit=200000):
    """uid -> (path, object) of all changeable storage reachable from a value (array storage by its root)"""
    out = {}
    st = [("", root)]
    seen = set()
    while st:
        path, v = st.pop()
        if isinstance(v, Arr):
            for r in v.roots():
                out.setdefault(r.uid, (path, r))
            continue
        if isinstance(v, (ClassV, ModuleV)):
            continue
        if isinstance(v, V):
            if v.uid in seen:
                continue
            seen.add(v.uid)
            if isinstance(v, (Instance, DictV, ListV)):
                out[v.uid] = (path, v)
        ch = children(v)
        if ch:
            st.extend((path + l, x) for l, x in ch)
    return out
