"""Abstract heap values of the interpreter."""
from . import domains as D
from .domains import Num

_ids = [0]


def nid():
    _ids[0] += 1
    return _ids[0]


class Cell(dict):
    """the changeable state of an object; born: when it was created"""
    __slots__ = ("born",)


class V:
    __slots__ = ("d", "uid", "site")
    kind = "V"

    def __init__(self):
        self.d = Cell()
        self.uid = self.d.born = nid()
        self.site = None


class Const:
    """None, strings, Ellipsis, NotImplemented, slices"""
    __slots__ = ("v",)
    kind = "const"

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)
NOTIMPL = Const(NotImplemented)
ELLIPSIS = Const(Ellipsis)


class Unknown:
    __slots__ = ("n",)
    kind = "unknown"

    def __init__(self, deps=D.NODEPS):
        self.n = D.unknown(deps)

    def __repr__(self):
        return "Unknown(%s)" % (",".join(sorted(self.n.deps)),)


class SliceV:
    __slots__ = ("lo", "hi", "step")
    kind = "slice"

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class TupleV:
    __slots__ = ("items",)
    kind = "tuple"

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tuple%r" % (self.items,)


class Summ:
    """contents of a list of unknown length: join of all elements"""
    __slots__ = ("elem",)
    kind = "summ"

    def __init__(self, elem):
        self.elem = elem

    def __repr__(self):
        return "*%r" % (self.elem,)


class ListV(V):
    __slots__ = ("settype",)
    kind = "list"

    def __init__(self, items=None, elem=None):
        V.__init__(self)
        self.d["items"] = Summ(elem) if items is None else tuple(items)
        self.settype = False

    @property
    def items(self):
        x = self.d["items"]
        return x if isinstance(x, tuple) else None

    @property
    def elem(self):
        x = self.d["items"]
        return None if isinstance(x, tuple) else x.elem

    def __repr__(self):
        return "List%s(%r)" % (self.uid, self.d["items"])


UNK = "<unknown-key>"


class DictV(V):
    __slots__ = ()
    kind = "dict"

    def __init__(self, d=None):
        V.__init__(self)
        if d is not None:
            self.d = d

    def __repr__(self):
        return "Dict(%s)" % list(self.d)


class Arr(V):
    """numpy array storage; bases: arrays whose storage this one (may) alias"""
    __slots__ = ("bases",)
    kind = "arr"

    def __init__(self, n, bases=()):
        V.__init__(self)
        self.d["n"] = n
        self.bases = tuple(bases)

    @property
    def n(self):
        return self.d["n"]

    def roots(self):
        out = []
        st = [self]
        seen = set()
        while st:
            a = st.pop()
            if a.uid in seen:
                continue
            seen.add(a.uid)
            if a.bases:
                st.extend(a.bases)
            else:
                out.append(a)
        return out

    def __repr__(self):
        return "Arr%d(%r)" % (self.uid, self.n)


class Instance(V):
    __slots__ = ("cls",)
    kind = "inst"

    def __init__(self, cls):
        V.__init__(self)
        self.cls = cls

    def __repr__(self):
        return "<%s %d>" % (self.cls.name, self.uid)


class Env(V):
    __slots__ = ("parent", "module", "func", "globals_", "nonlocals_")
    kind = "env"

    def __init__(self, parent, module, func=None):
        V.__init__(self)
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_ = ()
        self.nonlocals_ = ()


class Func(V):
    __slots__ = ("node", "env", "name", "defaults", "kwdefaults", "cls", "module", "qual", "memo", "isgen", "locals_")
    kind = "func"

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    __slots__ = ("self_", "func")
    kind = "bound"

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class PartialV:
    __slots__ = ("func", "args", "kw")
    kind = "partial"

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Builtin:
    """model function: fn(interp, args, kwargs)"""
    __slots__ = ("name", "fn", "self_")
    kind = "builtin"

    def __init__(self, name, fn, self_=None):
        self.name = name
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop:
    __slots__ = ("fget", "fset", "cached")
    kind = "prop"

    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class Static:
    __slots__ = ("func",)
    kind = "static"

    def __init__(self, f):
        self.func = f


class ClassM:
    __slots__ = ("func",)
    kind = "classm"

    def __init__(self, f):
        self.func = f


class FieldV:
    __slots__ = ("default", "factory", "init")
    kind = "field"

    def __init__(self, default, factory, init=True):
        self.default, self.factory, self.init = default, factory, init


class ClassV(V):
    __slots__ = ("name", "bases", "mro", "module", "node", "dc", "annots", "enum", "ext")
    kind = "class"

    def __init__(self, name, bases, module, node):
        V.__init__(self)
        self.name = name
        self.bases = bases
        self.module = module
        self.node = node
        self.dc = None
        self.annots = []
        self.enum = False
        self.ext = False
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassV)] + [[b for b in self.bases if isinstance(b, ClassV)]]
        self.ext = any(not isinstance(b, ClassV) for b in self.bases) or any(
            isinstance(b, ClassV) and b.ext for b in self.bases)
        out = [self]
        while any(seqs):
            for s in seqs:
                if not s:
                    continue
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                break
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


class ModuleV(V):
    __slots__ = ("name", "path", "tree", "state", "src")
    kind = "module"

    def __init__(self, name, path):
        V.__init__(self)
        self.name = name
        self.path = path
        self.state = 0

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """external name, e.g. numpy.linalg.norm"""
    __slots__ = ("path",)
    kind = "ext"

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


class ExtObj:
    """immutable external object with facts: n (Num) plus attributes"""
    __slots__ = ("cls", "n", "a", "uid")
    kind = "extobj"

    def __init__(self, cls, n, a=None):
        self.cls = cls
        self.n = n
        self.a = a or {}
        self.uid = nid()

    def __repr__(self):
        return "<%s obj %r>" % (self.cls, self.n)


class SuperV:
    __slots__ = ("cls", "obj")
    kind = "super"

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class EnumM:
    __slots__ = ("cls", "name", "value")
    kind = "enum"

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class Union:
    __slots__ = ("alts", "cond", "sel")
    kind = "union"

    def __init__(self, alts, cond=None, sel=None):
        self.alts = alts
        self.cond = cond
        self.sel = sel      # one condition per alternative, true when it is the one

    def __repr__(self):
        return "Union(%r)" % (self.alts,)


HEAP = (ListV, DictV, Arr, Instance, Env, Func, ClassV, ModuleV)


def deps_of(v, depth=3):
    """labels that may influence the value (shallow through containers)"""
    if isinstance(v, Num):
        return v.deps
    if isinstance(v, Arr):
        return v.n.deps
    if isinstance(v, (Unknown, ExtObj)):
        return v.n.deps if v.n is not None else D.NODEPS
    if depth <= 0:
        return D.NODEPS
    if isinstance(v, TupleV):
        r = D.NODEPS
        for x in v.items:
            r = r | deps_of(x, depth - 1)
        return r
    if isinstance(v, ListV):
        r = D.NODEPS
        if v.items is not None:
            for x in v.items:
                r = r | deps_of(x, depth - 1)
        elif v.elem is not None:
            r = deps_of(v.elem, depth - 1)
        return r
    if isinstance(v, (DictV, Instance)):
        r = D.NODEPS
        for x in v.d.values():
            r = r | deps_of(x, depth - 1)
        return r
    if isinstance(v, Union):
        r = v.cond.deps if v.cond is not None else D.NODEPS
        for x in v.alts:
            r = r | deps_of(x, depth)
        return r
    if isinstance(v, Bound):
        return deps_of(v.self_, depth - 1)
    return D.NODEPS
