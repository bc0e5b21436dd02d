"""Whole-program abstract interpreter for the gggears sources (AST level, nothing of the program is executed).

Both sides of every undecided branch are analysed from the same abstract state and joined; loops over unknown sequences
are summarised by a bounded join iteration; calls are analysed in the caller's context.
"""
import ast
import os
from . import domains as D
from . import terms as T
from .domains import Num, Bad, Z, NODEPS, num_const, n_join
from .values import *

ABSENT = "<absent>"
CAP = 6


class PathDead(Exception):
    pass


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("kind", "base", "plen", "exits")

    def __init__(self, kind, base, plen):
        self.kind, self.base, self.plen, self.exits = kind, base, plen, []


class Interp:
    def __init__(self, repo, budget=40_000_000, package="gggears", srcdir=None):
        self.repo = repo
        self.srcdir = srcdir or os.path.join(repo, "src")
        self.package = package
        self.logs = [{}]
        self.path = []
        self.frames = []
        self.stack = []            # (func, where)
        self.steps = 0
        self.budget = budget
        self.modules = {}
        self.cur = ("?", "?", 0)
        self.problems = []         # unresolved attribute / arity events
        self._probset = set()
        self.raises = []
        self.raise_hook = None
        self.call_hook = None
        self.kernel_hook = None
        self.prov = None
        self.solve_hook = None
        self.views = None
        self.forked = 1 << 60
        self.sinks = []            # (kind, msg, where, bad)
        self.sink_count = {}
        self.funcs_seen = set()
        self.ncalls = 0
        self.nbranch = 0
        D.set_where(self.where)
        from . import models
        self.M = models
        self.builtins = models.make_builtins(self)

    # ------------------------------------------------------------ state
    def where(self):
        return "%s:%s:%d" % self.cur

    def write(self, d, key, val):
        log = self.logs[-1]
        k = (id(d), key)
        if k not in log:
            log[k] = (d, key, d.get(key, ABSENT))
        d[key] = val

    def delete(self, d, key):
        log = self.logs[-1]
        k = (id(d), key)
        if k not in log:
            log[k] = (d, key, d.get(key, ABSENT))
        d.pop(key, None)

    def capture(self, base):
        out = {}
        for log in self.logs[base:]:
            for k, (d, key, old) in log.items():
                if k not in out:
                    out[k] = [d, key, old, None]
        for e in out.values():
            e[3] = e[0].get(e[1], ABSENT)
        return out

    def rollback(self, base):
        for log in reversed(self.logs[base:]):
            for d, key, old in log.values():
                if old is ABSENT:
                    d.pop(key, None)
                else:
                    d[key] = old
        del self.logs[base + 1:]
        self.logs[base] = {}

    def apply(self, diff):
        for d, key, old, new in diff.values():
            if new is ABSENT:
                if key in d:
                    self.delete(d, key)
            elif d.get(key, ABSENT) is not new:
                self.write(d, key, new)

    # ------------------------------------------------------------ joins
    def join(self, a, b, cond=None):
        if a is b:
            return a
        if a is ABSENT:
            return b
        if b is ABSENT:
            return a
        ta, tb = type(a), type(b)
        if ta is Num and tb is Num:
            return n_join(a, b, cond)
        if ta is Const and tb is Const and a.v == b.v and type(a.v) is type(b.v):
            return a
        if ta is Arr and tb is Arr:
            if a.roots() and set(x.uid for x in a.roots()) == set(x.uid for x in b.roots()) and self.n_in(a, 0) is self.n_in(b, 1):
                return a
            return Arr(n_join(self.n_in(a, 0), self.n_in(b, 1), cond), (a, b))
        if (ta is Arr and tb is Num) or (ta is Num and tb is Arr):
            n = n_join(self.n_in(a, 0) if ta is Arr else a, self.n_in(b, 1) if tb is Arr else b, cond)
            return Arr(n.with_(shape=None, elems=None), (a if ta is Arr else b,))
        if ta is tuple or ta is Summ:
            if ta is tuple and tb is tuple and len(a) == len(b):
                return tuple(self.join(x, y, cond) for x, y in zip(a, b))
            es = []
            for x in (a, b):
                if isinstance(x, tuple):
                    es.extend(x)
                elif x.elem is not None:
                    es.append(x.elem)
            c2 = cond if cond is not None else None
            return Summ(self.join_all(es, c2) if es else None)
        if ta is TupleV and tb is TupleV and len(a.items) == len(b.items):
            return TupleV([self.join(x, y, cond) for x, y in zip(a.items, b.items)])
        if ta is ExtObj and tb is ExtObj and a.cls == b.cls and a.n is not None and b.n is not None:
            r = ExtObj(a.cls, n_join(a.n, b.n, cond))
            for k in a.a:
                if k in b.a:
                    r.a[k] = self.join(a.a[k], b.a[k], cond)
            return r
        if ta is Bound and tb is Bound and a.func is b.func and a.self_ is b.self_:
            return a
        if ta is Unknown or tb is Unknown:
            return self.unk(a, b, cond)
        alts = []
        for x in (a, b):
            for y in (x.alts if isinstance(x, Union) else [x]):
                if not any(self.same(y, z) for z in alts):
                    alts.append(y)
        if len(alts) == 1:
            return alts[0]
        nums = [x for x in alts if isinstance(x, (Num, Arr))]
        if len(nums) > 1:
            j = nums[0]
            for x in nums[1:]:
                j = self.join(j, x, cond)
            alts = [x for x in alts if not isinstance(x, (Num, Arr))] + [j]
            if len(alts) == 1:
                return alts[0]
        if len(alts) > CAP:
            return self.unk(a, b, cond)
        for x in (a, b):
            if isinstance(x, Union) and x.cond is not None and x.cond is not cond:
                cond = self.and_cond([x.cond] + ([cond] if cond is not None else []))
        return Union(alts, cond)

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Const):
            return a.v == b.v and type(a.v) is type(b.v)
        if isinstance(a, Bound):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, Ext):
            return a.path == b.path
        if isinstance(a, Num):
            return a.term is not None and a.term == b.term and a.deps == b.deps
        return False

    def unk(self, *vs):
        r = NODEPS
        for v in vs:
            if v is not None:
                r = r | deps_of(v)
        return Unknown(r)

    def and_cond(self, conds):
        if len(conds) == 1:
            return conds[0]
        deps = NODEPS
        dim, rot, ang = 0, "S", D.N1
        ts = []
        for c in conds:
            deps = deps | c.deps
            if isinstance(c.dim, Bad):
                dim = c.dim
            if isinstance(c.rot, Bad):
                rot = c.rot
            if isinstance(c.ang, Bad):
                ang = c.ang
            ts.append(c.term)
        t = T.app("and", *ts) if all(x is not None for x in ts) else None
        return Num(None, (), None, deps, dim, rot, T.ZERO, ang, t)

    def join_diffs(self, d1, d2, cond):
        out = {}
        for k in list(d1) + [x for x in d2 if x not in d1]:
            e1, e2 = d1.get(k), d2.get(k)
            e = e1 or e2
            old = e[2]
            n1 = e1[3] if e1 else old
            n2 = e2[3] if e2 else old
            if not (e1 and e2) and getattr(e[0], "born", 0) > self.forked:
                # the object was created in the branch that changed it
                out[k] = [e[0], e[1], old, e[3]]
                continue
            if n1 is n2:
                new = n1
            else:
                new = self.join(n1, n2, cond)
            out[k] = [e[0], e[1], old, new]
        return out

    def n_in(self, a, side):
        """the value of an array at the end of the branch it comes from"""
        v = self.views[side] if self.views is not None else None
        e = v.get((id(a.d), "n")) if v else None
        return a.n if e is None or e[3] is ABSENT else e[3]

    def combine(self, x, y, cond):
        saved, self.views = self.views, (x[1], y[1])
        try:
            return (self.join(x[0], y[0], cond), self.join_diffs(x[1], y[1], cond))
        finally:
            self.views = saved

    def join_exits(self, ex):
        """ex: list of (val, diff, suffix)"""
        while True:
            if len(ex) == 1:
                return (ex[0][0], ex[0][1])
            c = None
            for e in ex:
                if e[2]:
                    c = e[2][0][0]
                    break
            if c is None:
                r = (ex[0][0], ex[0][1])
                for e in ex[1:]:
                    r = self.combine(r, (e[0], e[1]), None)
                return r
            tr = [(v, d, s[1:]) for v, d, s in ex if s and s[0][0] is c and s[0][1]]
            fa = [(v, d, s[1:]) for v, d, s in ex if s and s[0][0] is c and not s[0][1]]
            ot = [(v, d, s) for v, d, s in ex if not (s and s[0][0] is c)]
            if not ot and not (tr and fa):
                ex = tr or fa
                continue
            break
        cc = c
        if ot:
            more = [c]
            for v, d, s in tr + fa:
                for q, p in s:
                    if not any(q is z for z in more):
                        more.append(q)
            cc = self.and_cond(more[:6])
        if tr and fa:
            r = self.combine(self.join_exits(tr), self.join_exits(fa), c)
            if ot:
                r = self.combine(r, self.join_exits(ot), cc)
            return r
        if tr:
            return self.combine(self.join_exits(tr), self.join_exits(ot), cc)
        return self.combine(self.join_exits(ot), self.join_exits(fa), cc)

    # ------------------------------------------------------------ branching
    def assumed(self, cond):
        if cond.term is None:
            return None
        for c, p in self.path:
            if c is cond or (c.term is not None and c.term == cond.term):
                return p
        return None

    def fork(self, branches):
        """branches: list of (cond, polarity, thunk); returns the joined value"""
        self.nbranch += 1
        plen = len(self.path)
        res = []
        start = nid()
        for cond, pol, thunk in branches:
            base = len(self.logs)
            self.logs.append({})
            if cond is not None:
                self.path.append((cond, pol))
            alive = True
            val = None
            try:
                val = thunk()
            except PathDead:
                alive = False
            diff = self.capture(base)
            self.rollback(base)
            self.logs.pop()
            if alive:
                res.append((val, diff, self.path[plen:], cond, pol))
            del self.path[plen:]
        if not res:
            raise PathDead()
        if len(res) == 1:
            self.apply(res[0][1])
            self.path.extend(res[0][2])
            return res[0][0]
        saved, self.forked = self.forked, start
        try:
            return self.fork_join(res)
        finally:
            self.forked = saved

    def fork_join(self, res):
        r = (res[0][0], res[0][1])
        c0 = res[0][3]
        if len(res) == 2 and c0 is not None and c0 is res[1][3] and not res[0][4]:
            r = self.combine((res[1][0], res[1][1]), r, c0)
        else:
            for e in res[1:]:
                r = self.combine(r, (e[0], e[1]), c0 if len(res) == 2 else (c0 or e[3]))
        self.apply(r[1])
        return r[0]

    def branch(self, cond, tthunk, fthunk):
        """cond: value; decides if possible"""
        if isinstance(cond, Union):
            return self.fork_union(cond, lambda c: self.branch(c, tthunk, fthunk))
        b = self.truth(cond)
        if b is True:
            return tthunk()
        if b is False:
            return fthunk()
        a = self.assumed(b)
        if a is not None:
            return tthunk() if a else fthunk()
        return self.fork([(b, True, tthunk), (b, False, fthunk)])

    def fork_union(self, u, f):
        alts = u.alts
        if len(alts) == 2 and u.cond is not None:
            return self.fork([(u.cond, True, lambda: f(alts[0])), (u.cond, False, lambda: f(alts[1]))]) \
                if False else self._fu(u, f)
        return self._fu(u, f)

    def _fu(self, u, f):
        self.nbranch += 1
        res = []
        plen = len(self.path)
        live = []
        for k, alt in enumerate(u.alts):
            base = len(self.logs)
            self.logs.append({})
            alive = True
            val = None
            try:
                val = f(alt)
            except PathDead:
                alive = False
            diff = self.capture(base)
            self.rollback(base)
            self.logs.pop()
            del self.path[plen:]
            if alive:
                res.append((val, diff))
                live.append(k)
        if not res:
            raise PathDead()
        if u.sel is not None:
            r = res[-1]
            for e, k in list(zip(res, live))[-2::-1]:
                r = self.combine(e, r, u.sel[k])
            self.apply(r[1])
            return r[0]
        r = res[0]
        for e in res[1:]:
            r = self.combine(r, e, u.cond)
        self.apply(r[1])
        return r[0]

    def truth(self, v):
        """True / False / Num (unknown condition)"""
        if isinstance(v, Num):
            if v.const is not None:
                return bool(v.const)
            if v.shape == () or v.shape is None:
                s = self.M.sign_of(v)
                if s in ("+", "-"):
                    return True
                return v
            return v
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, TupleV):
            return len(v.items) > 0
        if isinstance(v, ListV):
            if v.items is not None:
                return len(v.items) > 0
            return self.boolnum(deps_of(v))
        if isinstance(v, DictV):
            return len(v.d) > 0 if UNK not in v.d else self.boolnum(deps_of(v))
        if isinstance(v, Arr):
            return v.n
        if isinstance(v, Unknown):
            return v.n
        if isinstance(v, Instance):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(Bound(v, m), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(Bound(v, m), [], {}))
            return True
        if isinstance(v, ExtObj):
            return True
        return True

    def boolnum(self, deps=NODEPS, term=None):
        return Num(None, (), None, deps, 0, "S", T.ZERO, D.N1, term or D.fresh_term("b"))

    # ------------------------------------------------------------ exits
    def exit_to(self, kind, val, die=True):
        want = {"return": ("func",), "break": ("loop",), "continue": ("iter",), "raise": ("try",)}[kind]
        for fr in reversed(self.frames):
            if fr.kind == "finally" or fr.kind in want:
                fr.exits.append((kind, val, self.capture(fr.base), self.path[fr.plen:]))
                break
            if kind != "raise" and fr.kind == "func":
                break
        else:
            if kind == "raise":
                self.raises.append((self.where(), val))
                if self.raise_hook:
                    self.raise_hook("raise", self.where())
        if die:
            raise PathDead()

    def may_raise(self, what):
        if any(f.kind in ("try", "finally") for f in self.frames):
            self.exit_to("raise", Const(None), die=False)
        elif self.raise_hook:
            self.raise_hook(what, self.where())

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.split(".")
        if len(rel) > 1 and ".".join(rel[:-1]) not in self.modules:
            # importing a submodule imports its package first
            self.module(".".join(rel[:-1]))
            if name in self.modules:
                return self.modules[name]
        base = os.path.join(self.srcdir, *rel)
        path = base + ".py"
        if not os.path.exists(path):
            path = os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            return None
        m = ModuleV(name, path)
        self.modules[name] = m
        with open(path) as f:
            m.src = f.read()
        m.tree = ast.parse(m.src)
        m.d["__name__"] = Const(name)
        save = self.cur, self.frames, self.path, self.logs
        self.frames, self.path, self.logs = [], [], [{}]
        env = Env(None, m)
        env.d = m.d
        self.cur = (os.path.basename(path), "<module>", 0)
        try:
            self.exec_block(m.tree.body, env)
        finally:
            self.cur, self.frames, self.path, self.logs = save
        m.state = 1
        return m

    def is_internal(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def do_import(self, name):
        if self.is_internal(name):
            parts = name.split(".")
            prev = None
            for i in range(1, len(parts) + 1):
                sub = ".".join(parts[:i])
                m = self.module(sub) if i > 1 or sub in self.modules or True else None
                if m is None:
                    return Ext(name)
                if prev is not None and parts[i - 1] not in prev.d:
                    prev.d[parts[i - 1]] = m
                prev = m
            return prev
        return Ext(name)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec_stmt(s, env)

    def setcur(self, node):
        c = self.cur
        self.cur = (c[0], c[1], node.lineno)

    def exec_stmt(self, s, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        self.setcur(s)
        getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, env)

    def s_unknown(self, s, env):
        self.problem("unsupported", type(s).__name__)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals_ = tuple(env.nonlocals_) + tuple(s.names)

    def s_Assert(self, s, env):
        v = self.eval(s.test, env)
        b = self.truth(v) if not isinstance(v, Union) else None
        if b is False:
            self.exit_to("raise", Const(None))

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.assign_name(env, a.asname, self.do_import(a.name))
            else:
                self.do_import(a.name)
                self.assign_name(env, a.name.split(".")[0], self.do_import(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            pk = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            name = ".".join(pk + ([name] if name else []))
        m = self.do_import(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModuleV):
                    al = m.d.get("__all__")
                    for k, v in list(m.d.items()):
                        if al is not None and isinstance(al, ListV) and al.items is not None:
                            if k not in [x.v for x in al.items if isinstance(x, Const)]:
                                continue
                        elif k.startswith("_"):
                            continue
                        self.assign_name(env, k, v)
                continue
            if isinstance(m, ModuleV):
                if a.name in m.d:
                    v = m.d[a.name]
                else:
                    v = self.do_import(name + "." + a.name)
                    if isinstance(v, Ext):
                        self.problem("import", "%s has no attribute %s" % (name, a.name))
                        v = Unknown()
            else:
                v = Ext(name + "." + a.name)
            self.assign_name(env, a.asname or a.name, v)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for dec in reversed(s.decorator_list):
            v = self.decorate(self.eval(dec, env), v)
        self.assign_name(env, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dec, v):
        if isinstance(dec, Ext):
            p = dec.path
            if p == "builtins.property":
                return Prop(v)
            if p in ("functools.cached_property",):
                return Prop(v, cached=True)
            if p == "builtins.staticmethod":
                return Static(v)
            if p == "builtins.classmethod":
                return ClassM(v)
            if p in ("functools.lru_cache", "functools.cache"):
                if isinstance(v, Func):
                    v.memo = {}
                return v
            if p in ("abc.abstractmethod", "typing.overload", "typing.final"):
                return v
        return self.call(dec, [v], {})

    def make_func(self, node, env, name):
        f = Func()
        f.node = node
        f.env = env
        f.name = name
        a = node.args
        f.defaults = [self.eval(x, env) for x in a.defaults]
        f.kwdefaults = [None if x is None else self.eval(x, env) for x in a.kw_defaults]
        f.cls = env.func if isinstance(env.func, ClassV) else None
        f.module = env.module
        f.memo = None
        q = self.cur[1]
        f.qual = name if q == "<module>" else q + "." + name
        if isinstance(env.func, ClassV):
            f.qual = env.func.name + "." + name
        f.isgen = not isinstance(node, ast.Lambda) and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_own(node))
        f.locals_ = None
        f.site = self.where()
        return f

    def s_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.eval(b, env)
            bases.append(v)
        c = ClassV(s.name, bases, env.module, s)
        c.site = self.where()
        if any(isinstance(b, Ext) and b.path in ("enum.Enum", "enum.IntEnum", "enum.Flag") for b in bases) or any(
                isinstance(b, ClassV) and b.enum for b in bases):
            c.enum = True
            c.ext = False
        cenv = Env(env, env.module, c)
        cenv.d = c.d
        save = self.cur
        self.cur = (self.cur[0], s.name, s.lineno)
        self.exec_block(s.body, cenv)
        self.cur = save
        if c.enum:
            for k, v in list(c.d.items()):
                if not k.startswith("_") and isinstance(v, (Num, Const, TupleV)):
                    c.d[k] = EnumM(c, k, v)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.annots.append((st.target.id, st))
        v = c
        for dec in reversed(s.decorator_list):
            dv = self.eval(dec, env)
            if isinstance(dv, Ext) and dv.path == "dataclasses.dataclass":
                self.make_dataclass(c, {})
            elif isinstance(dv, PartialV) and isinstance(dv.func, Ext) and dv.func.path == "dataclasses.dataclass":
                self.make_dataclass(c, dv.kw)
            else:
                v = self.decorate(dv, v)
        self.assign_name(env, s.name, v)

    def make_dataclass(self, c, kw):
        fields = {}
        for b in reversed(c.mro[1:]):
            if b.dc:
                for k, f in b.dc:
                    fields[k] = f
        for name, st in c.annots:
            ann = ast.unparse(st.annotation)
            if "ClassVar" in ann:
                continue
            dv = c.d.get(name, ABSENT)
            if isinstance(dv, FieldV):
                fields[name] = dv
                if dv.default is not None:
                    c.d[name] = dv.default
                else:
                    c.d.pop(name, None)
            elif dv is ABSENT:
                fields[name] = FieldV(None, None)
            else:
                fields[name] = FieldV(dv, None)
        c.dc = list(fields.items())
        if "__init__" not in c.d:
            c.d["__init__"] = Builtin(c.name + ".__init__", self.M.dc_init(c))
        fz = kw.get("frozen")
        if "__eq__" not in c.d:
            c.d["__eq__"] = Builtin("__eq__", self.M.dc_eq(c))

    def s_Return(self, s, env):
        v = NONE if s.value is None else self.eval(s.value, env)
        self.exit_to("return", v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delete(env.d, t.id)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Instance):
                    self.delete(o.d, t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval(t.slice, env)
                self.M.delitem(self, o, i)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.augop(op, cur, self.eval(s.value, env))
            self.assign_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.augop(op, cur, self.eval(s.value, env))
            self.setattr(o, t.attr, v)
        else:
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.M.getitem(self, o, i)
            v = self.augop(op, cur, self.eval(s.value, env))
            self.M.setitem(self, o, i, v)

    def augop(self, op, cur, val):
        if isinstance(cur, Union):
            return self.fork_union(cur, lambda c: self.augop(op, c, val))
        if isinstance(cur, Arr) and cur.n.shape not in (None, ()):
            r = self.binop(op, Arr(cur.n), val)
            rn = self.M.to_n(self, r)
            self.M.arr_store(self, cur, rn.with_(shape=cur.n.shape), strong=True)
            return cur
        if isinstance(cur, ListV) and op == "Add":
            self.M.list_extend(self, cur, val)
            return cur
        if isinstance(cur, Instance):
            m, _ = cur.cls.lookup({"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__",
                                   "MatMult": "__imatmul__"}.get(op, "__none__"))
            if m is not None:
                return self.call(Bound(cur, m), [val], {})
        return self.binop(op, cur, val)

    def assign_name(self, env, name, v):
        if name in env.globals_:
            self.write(env.module.d, name, v)
            return
        if name in env.nonlocals_:
            e = env.parent
            while e is not None:
                if name in e.d and not isinstance(e.func, ClassV):
                    self.write(e.d, name, v)
                    return
                e = e.parent
        self.write(env.d, name, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Union):
                vals = None
                lists = [self.M.unpack(self, a, len(t.elts), t.elts) for a in v.alts]
                vals = lists[0]
                for l in lists[1:]:
                    vals = [self.join(x, y, v.cond) for x, y in zip(vals, l)]
            else:
                vals = self.M.unpack(self, v, len(t.elts), t.elts)
            for tt, x in zip(t.elts, vals):
                if isinstance(tt, ast.Starred):
                    tt = tt.value
                self.assign(tt, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setcur(t)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            self.setcur(t)
            self.M.setitem(self, o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def s_If(self, s, env):
        c = self.eval(s.test, env)

        def tr():
            self.refine(s.test, True, env)
            self.exec_block(s.body, env)

        def fa():
            self.refine(s.test, False, env)
            self.exec_block(s.orelse, env)
        self.setcur(s)
        self.branch(c, tr, fa)

    def refine(self, test, truth, env):
        """narrow unions by None/isinstance tests"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth, env)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
                for v in test.values:
                    self.refine(v, truth, env)
            return
        target, pred = None, None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            want = truth if isinstance(test.ops[0], (ast.Is, ast.Eq)) else not truth
            target = test.left
            pred = lambda v: (isinstance(v, Const) and v.v is None) == want
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" \
                and len(test.args) == 2:
            target = test.args[0]
            try:
                cls = self.eval(test.args[1], env)
            except PathDead:
                return
            pred = lambda v: self.M.isinst(self, v, cls) in (truth, None)
        if target is None or not isinstance(target, (ast.Name, ast.Attribute)):
            return
        if isinstance(target, ast.Name):
            cur = env.d.get(target.id)
            if isinstance(cur, Union):
                alts = [a for a in cur.alts if pred(a)]
                if alts and len(alts) < len(cur.alts):
                    self.write(env.d, target.id, alts[0] if len(alts) == 1 else Union(alts, cur.cond))
        elif isinstance(target.value, ast.Name):
            o = env.d.get(target.value.id)
            if isinstance(o, Instance):
                cur = o.d.get(target.attr)
                if isinstance(cur, Union):
                    alts = [a for a in cur.alts if pred(a)]
                    if alts and len(alts) < len(cur.alts):
                        self.write(o.d, target.attr, alts[0] if len(alts) == 1 else Union(alts, cur.cond))

    def s_Raise(self, s, env):
        v = NONE
        if s.exc is not None:
            v = self.eval(s.exc, env)
        self.setcur(s)
        self.exit_to("raise", v)

    def s_Break(self, s, env):
        self.exit_to("break", None)

    def s_Continue(self, s, env):
        self.exit_to("continue", None)

    def s_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            ent = v
            if isinstance(v, Instance):
                m, _ = v.cls.lookup("__enter__")
                if m is not None:
                    ent = self.call(Bound(v, m), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, env)
        self.exec_block(s.body, env)
        for it in reversed(s.items):
            v = None
        # __exit__ on the normal path
    s_AsyncWith = s_With

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        self.loop(it, lambda v: self.assign(s.target, v, env), lambda: self.exec_block(s.body, env),
                  (lambda: self.exec_block(s.orelse, env)) if s.orelse else None)

    def loop(self, it, bind, body, orelse=None):
        if isinstance(it, Union):
            return self.fork_union(it, lambda a: self.loop(a, bind, body, orelse))
        kind, data, cond = self.M.iterate(self, it)
        base = len(self.logs)
        self.logs.append({})
        plen = len(self.path)
        fr = Frame("loop", base, plen)
        self.frames.append(fr)
        alive = True
        try:
            if kind == "known":
                for v in data:
                    self.one_iter(v, bind, body)
            else:
                for _ in range(2):
                    self.fork([(cond, True, lambda: self.one_iter(data, bind, body)),
                               (cond, False, lambda: None)])
                    # each further pass starts from the joined state
                    del self.path[plen:]
            if orelse:
                orelse()
        except PathDead:
            alive = False
        finally:
            self.frames.pop()
        self.finish_frame(fr, alive, None)

    def one_iter(self, v, bind, body):
        base = len(self.logs)
        self.logs.append({})
        fr = Frame("iter", base, len(self.path))
        self.frames.append(fr)
        alive = True
        try:
            bind(v)
            body()
        except PathDead:
            alive = False
        finally:
            self.frames.pop()
        self.finish_frame(fr, alive, None)

    def finish_frame(self, fr, alive, val):
        """join the recorded exits of a frame with the fall-through state"""
        ex = [(v, d, s) for k, v, d, s in fr.exits]
        if alive:
            ex.append((val, self.capture(fr.base), self.path[fr.plen:]))
        self.rollback(fr.base)
        self.logs.pop()
        del self.path[fr.plen:]
        if not ex:
            raise PathDead()
        if len(ex) == 1:
            self.apply(ex[0][1])
            self.path.extend(ex[0][2])
            return ex[0][0]
        v, d = self.join_exits(ex)
        self.apply(d)
        return v

    def s_While(self, s, env):
        base = len(self.logs)
        self.logs.append({})
        plen = len(self.path)
        fr = Frame("loop", base, plen)
        self.frames.append(fr)
        alive = True
        n = 0
        try:
            while True:
                n += 1
                c = self.eval(s.test, env)
                b = self.truth(c) if not isinstance(c, Union) else self.boolnum(deps_of(c))
                if b is False:
                    break
                if b is True and n <= 40:
                    self.one_iter(None, lambda v: None, lambda: self.exec_block(s.body, env))
                    continue
                if b is True:
                    b = self.boolnum()
                if n > 42:
                    break
                cc = b
                self.fork([(cc, True, lambda: self.one_iter(None, lambda v: None, lambda: self.exec_block(s.body, env))),
                           (cc, False, lambda: None)])
                del self.path[plen:]
                if n < 40:
                    n = 40
            if s.orelse:
                self.exec_block(s.orelse, env)
        except PathDead:
            alive = False
        finally:
            self.frames.pop()
        self.finish_frame(fr, alive, None)

    def s_Try(self, s, env):
        if s.finalbody:
            base = len(self.logs)
            self.logs.append({})
            fr = Frame("finally", base, len(self.path))
            self.frames.append(fr)
            alive = True
            try:
                self.try_inner(s, env)
            except PathDead:
                alive = False
            finally:
                self.frames.pop()
            norm = (self.capture(base), self.path[fr.plen:]) if alive else None
            self.rollback(base)
            self.logs.pop()
            del self.path[fr.plen:]
            # non-normal exits
            for kind, val, diff, suf in fr.exits:
                b2 = len(self.logs)
                self.logs.append({})
                self.apply(diff)
                self.path.extend(suf)
                try:
                    self.exec_block(s.finalbody, env)
                    self.exit_to(kind, val)
                except PathDead:
                    pass
                self.rollback(b2)
                self.logs.pop()
                del self.path[fr.plen:]
            if norm is None:
                raise PathDead()
            self.apply(norm[0])
            self.path.extend(norm[1])
            self.exec_block(s.finalbody, env)
        else:
            self.try_inner(s, env)

    def try_inner(self, s, env):
        if not s.handlers:
            self.exec_block(s.body, env)
            self.exec_block(s.orelse, env)
            return
        base = len(self.logs)
        self.logs.append({})
        fr = Frame("try", base, len(self.path))
        self.frames.append(fr)
        alive = True
        try:
            self.exec_block(s.body, env)
        except PathDead:
            alive = False
        finally:
            self.frames.pop()
        norm = self.capture(base) if alive else None
        nsuf = self.path[fr.plen:]
        self.rollback(base)
        self.logs.pop()
        del self.path[fr.plen:]
        outs = []
        if norm is not None:
            b2 = len(self.logs)
            self.logs.append({})
            self.apply(norm)
            self.path.extend(nsuf)
            ok = True
            try:
                self.exec_block(s.orelse, env)
            except PathDead:
                ok = False
            if ok:
                outs.append((None, self.capture(b2), []))
            self.rollback(b2)
            self.logs.pop()
            del self.path[fr.plen:]
        ex = [(v, d, su) for k, v, d, su in fr.exits]
        if ex:
            val, diff = self.join_exits(ex)
            for h in s.handlers:
                b2 = len(self.logs)
                self.logs.append({})
                self.apply(diff)
                ok = True
                try:
                    if h.name:
                        self.write(env.d, h.name, val if isinstance(val, ExtObj) else Unknown())
                    self.exec_block(h.body, env)
                except PathDead:
                    ok = False
                if ok:
                    outs.append((None, self.capture(b2), []))
                self.rollback(b2)
                self.logs.pop()
                del self.path[fr.plen:]
        if not outs:
            raise PathDead()
        v, d = self.join_exits(outs) if len(outs) > 1 else (None, outs[0][1])
        self.apply(d)

    def s_Match(self, s, env):
        subj = self.eval(s.subject, env)

        def go(i):
            if i >= len(s.cases):
                return
            c = s.cases[i]
            p = c.pattern
            if isinstance(p, ast.MatchValue):
                cond = self.compare("Eq", subj, self.eval(p.value, env))
            elif isinstance(p, ast.MatchSingleton):
                cond = self.compare("Is", subj, self.const(p.value))
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.assign_name(env, p.name, subj)
                cond = num_const(True)
            elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                cond = self.M.isinst_v(self, subj, self.eval(p.cls, env))
            else:
                cond = self.boolnum(deps_of(subj))
            if c.guard is not None:
                cond = self.boolnum(deps_of(cond)) if self.truth(cond) is not False else cond
            self.branch(cond, lambda: self.exec_block(c.body, env), lambda: go(i + 1))
        go(0)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.problem("unsupported", type(e).__name__)
            return Unknown()
        return m(e, env)

    def const(self, v):
        if isinstance(v, (bool, int, float, complex)):
            return num_const(v)
        if v is None:
            return NONE
        return Const(v)

    def e_Constant(self, e, env):
        return self.const(e.value)

    def e_Name(self, e, env):
        return self.lookup(env, e.id, e)

    def lookup(self, env, name, node=None):
        x = env
        first = True
        while x is not None:
            if first or not isinstance(x.func, ClassV):
                v = x.d.get(name, ABSENT)
                if v is not ABSENT:
                    return v
            first = False
            x = x.parent
        v = env.module.d.get(name, ABSENT)
        if v is not ABSENT:
            return v
        v = self.builtins.get(name)
        if v is not None:
            return v
        if node is not None:
            self.setcur(node)
        self.problem("name", "name '%s' is not defined" % name)
        return Unknown()

    def problem(self, kind, msg):
        if kind in ("none", "op") and self.path:
            kind = "maybe " + kind      # on some path only, which may be infeasible
        k = (kind, msg, self.cur[:2])
        if k not in self._probset:
            self._probset.add(k)
            self.problems.append((kind, msg, self.where()))

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.cur = (self.cur[0], self.cur[1], e.lineno)
        return self.getattr(o, e.attr)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        if isinstance(f, Ext) and f.path == "builtins.super":
            return self.M.make_super(self, env, [self.eval(a, env) for a in e.args])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, Union):
                    v = v.alts[0] if len(v.alts) == 1 else self.M.merge_lists(self, v)
                kind, data, c = self.M.iterate(self, v)
                if kind == "known":
                    args.extend(data)
                else:
                    args.append(StarV(data))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in v.d.items():
                        if kk == UNK:
                            kw["**"] = vv
                        elif isinstance(kk, str):
                            kw[kk] = vv
                elif isinstance(v, Union):
                    al = [a for a in v.alts if isinstance(a, DictV)]
                    for a in al:
                        for kk, vv in a.d.items():
                            if isinstance(kk, str) and kk != UNK:
                                kw[kk] = self.join(kw[kk], vv, v.cond) if kk in kw else vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        save = self.cur
        self.cur = (save[0], save[1], e.lineno)
        r = self.call(f, args, kw)
        self.cur = save
        return r

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.cur = (self.cur[0], self.cur[1], e.lineno)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, Union):
            return self.fork_union(v, lambda a: self.unop(op, a))
        if op == "Not":
            b = self.truth(v)
            if isinstance(b, bool):
                return num_const(not b)
            return self.M.not_num(b)
        if isinstance(v, Instance):
            m, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m is not None:
                return self.call(Bound(v, m), [], {})
            self.problem("attr", "%s has no unary %s" % (v.cls.name, op))
            return self.unk(v)
        if isinstance(v, (Num, Arr)):
            n = v if isinstance(v, Num) else v.n
            if op == "USub":
                return self.M.mk(D.n_neg(n))
            if op == "UAdd":
                return v
            return self.M.mk(n.with_(const=None, elems=None, term=None if n.term is None else T.app("inv~", n.term)))
        return self.unk(v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], env)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, Union):
                return self.fork_union(v, lambda a: cont(a, i))
            return cont(v, i)

        def cont(v, i):
            b = self.truth(v)
            if isinstance(b, bool):
                if b == isand:
                    return go(i + 1)
                return v
            a = self.assumed(b)
            if a is not None:
                if a == isand:
                    return go(i + 1)
                return num_const(a) if isinstance(v, Num) else v
            if isinstance(v, Num):
                # boolean-ish: evaluate the rest under the assumption, combine
                def rest():
                    if isand:
                        self.refine(e.values[i], True, env)
                    else:
                        self.refine(e.values[i], False, env)
                    return go(i + 1)
                w = self.fork([(b, isand, rest), (b, not isand, lambda: num_const(not isand))])
                if isinstance(w, Num):
                    return w
                return w
            return self.fork([(b, isand, lambda: go(i + 1)), (b, not isand, lambda: v)])
        return go(0)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                tb = self.truth(res) if not isinstance(res, Union) else None
                if tb is False:
                    return res
                if tb is True:
                    res = r
                else:
                    tr = self.truth(r)
                    if tr is False:
                        return r
                    if tr is not True:
                        res = self.and_cond([self.M.to_n(self, res), self.M.to_n(self, r)])
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Union):
            return self.fork_union(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Union):
            return self.fork_union(b, lambda x: self.compare(op, a, x))
        return self.M.compare(self, op, a, b)

    def e_IfExp(self, e, env):
        c = self.eval(e.test, env)

        def tr():
            self.refine(e.test, True, env)
            return self.eval(e.body, env)

        def fa():
            self.refine(e.test, False, env)
            return self.eval(e.orelse, env)
        return self.branch(c, tr, fa)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_Tuple(self, e, env):
        return TupleV(self.seq_items(e.elts, env, "tuple"))

    def seq_items(self, elts, env, what):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, Union):
                    v = self.M.merge_lists(self, v)
                kind, data, c = self.M.iterate(self, v)
                if kind == "known":
                    out.extend(data)
                else:
                    out.append(StarV(data))
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        items = self.seq_items(e.elts, env, "list")
        return self.M.mklist(self, items)

    def e_Set(self, e, env):
        l = self.e_List(e, env)
        l.settype = True
        return l

    def e_Dict(self, e, env):
        d = DictV()
        d.site = self.where()
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, env)
            if k is None:
                if isinstance(vv, DictV):
                    for kk, x in vv.d.items():
                        d.d[kk] = x
                else:
                    d.d[UNK] = self.unk(vv)
                continue
            kk = self.eval(k, env)
            key = self.M.dkey(kk)
            if key is None:
                d.d[UNK] = self.join(d.d[UNK], vv) if UNK in d.d else vv
            else:
                d.d[key] = vv
        return d

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, env)
        return Const("<fstring>")

    def e_FormattedValue(self, e, env):
        self.eval(e.value, env)
        return Const("<fstring>")

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign_name(env, e.target.id, v)
        return v

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        i = self.eval(e.slice, env)
        self.cur = (self.cur[0], self.cur[1], e.lineno)
        return self.M.getitem(self, o, i)

    def e_Await(self, e, env):
        return self.eval(e.value, env)

    def comp(self, e, env, add):
        cenv = Env(env, env.module, env.func if not isinstance(env.func, ClassV) else None)

        def go(i):
            if i == len(e.generators):
                add(cenv)
                return
            g = e.generators[i]
            it = self.eval(g.iter, cenv if i else env)

            def body():
                def conds(j):
                    if j == len(g.ifs):
                        go(i + 1)
                        return
                    c = self.eval(g.ifs[j], cenv)
                    self.branch(c, lambda: conds(j + 1), lambda: None)
                conds(0)
            self.loop(it, lambda v: self.assign(g.target, v, cenv), body)
        go(0)

    def e_ListComp(self, e, env):
        out = ListV(())
        out.site = self.where()
        self.comp(e, env, lambda ce: self.M.list_append(self, out, self.eval(e.elt, ce)))
        return out

    def e_SetComp(self, e, env):
        r = self.e_ListComp(e, env)
        r.settype = True
        return r

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        out = DictV()

        def add(ce):
            k = self.M.dkey(self.eval(e.key, ce))
            v = self.eval(e.value, ce)
            if k is None:
                k = UNK
            self.write(out.d, k, self.join(out.d[k], v) if (k == UNK and k in out.d) else v)
        self.comp(e, env, add)
        return out

    def e_Yield(self, e, env):
        v = NONE if e.value is None else self.eval(e.value, env)
        g = env
        while g is not None and "<yield>" not in g.d:
            g = g.parent
        if g is not None:
            self.M.list_append(self, g.d["<yield>"], v)
        return Unknown()

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        g = env
        while g is not None and "<yield>" not in g.d:
            g = g.parent
        if g is not None:
            self.M.list_extend(self, g.d["<yield>"], v)
        return Unknown()

    # ------------------------------------------------------------ operators
    BIN = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
           "Div": ("__truediv__", "__rtruediv__"), "MatMult": ("__matmul__", "__rmatmul__"),
           "Mod": ("__mod__", "__rmod__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"),
           "Pow": ("__pow__", "__rpow__"), "BitOr": ("__or__", "__ror__"), "BitAnd": ("__and__", "__rand__"),
           "BitXor": ("__xor__", "__rxor__"), "LShift": ("__lshift__", "__rlshift__"),
           "RShift": ("__rshift__", "__rrshift__")}

    def binop(self, op, a, b):
        if isinstance(a, Union):
            return self.fork_union(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Union):
            return self.fork_union(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Instance) or isinstance(b, Instance):
            l, r = self.BIN[op]
            if isinstance(a, Instance):
                m, _ = a.cls.lookup(l)
                if m is not None:
                    res = self.call(Bound(a, m), [b], {})
                    if not (isinstance(res, Const) and res.v is NotImplemented):
                        return res
            if isinstance(b, Instance):
                m, _ = b.cls.lookup(r)
                if m is not None:
                    if isinstance(a, Arr):
                        return self.unk(a, b)
                    return self.call(Bound(b, m), [a], {})
            if (isinstance(a, Instance) and a.cls.ext) or (isinstance(b, Instance) and b.cls.ext) \
                    or isinstance(a, (Unknown, ExtObj)) or isinstance(b, (Unknown, ExtObj)):
                return self.unk(a, b)
            self.problem("op", "unsupported operand types for %s: %s and %s" % (op, self.tname(a), self.tname(b)))
            self.exit_to("raise", NONE)
        return self.M.binop(self, op, a, b)

    def tname(self, v):
        if isinstance(v, Instance):
            return v.cls.name
        return v.kind if hasattr(v, "kind") else type(v).__name__

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Instance):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop):
                if cv.cached:
                    if name in o.d:
                        return o.d[name]
                    v = self.call(cv.fget, [o], {})
                    self.write(o.d, name, v)
                    return v
                return self.call(cv.fget, [o], {})
            v = o.d.get(name, ABSENT)
            if v is not ABSENT:
                return v
            if cv is not None:
                return self.bind(cv, o, o.cls)
            if name == "__dict__":
                return DictV(o.d)
            if name == "__class__":
                return o.cls
            m, _ = o.cls.lookup("__getattr__")
            if m is not None:
                return self.call(Bound(o, m), [Const(name)], {})
            if o.cls.ext:
                return Unknown(deps_of(o))
            self.problem("attr", "'%s' object has no attribute '%s'" % (o.cls.name, name))
            self.exit_to("raise", NONE)
        if isinstance(o, Union):
            return self.fork_union(o, lambda a: self.getattr(a, name))
        if isinstance(o, ModuleV):
            v = o.d.get(name, ABSENT)
            if v is not ABSENT:
                return v
            m = self.module(o.name + "." + name)
            if m is not None:
                return m
            self.problem("attr", "module '%s' has no attribute '%s'" % (o.name, name))
            return Unknown()
        if isinstance(o, ClassV):
            cv, _ = o.lookup(name)
            if cv is not None:
                if isinstance(cv, Static):
                    return cv.func
                if isinstance(cv, ClassM):
                    return Bound(o, cv.func)
                return cv
            if name == "__name__" or name == "__qualname__":
                return Const(o.name)
            if name == "__init__":
                return Builtin("object.__init__", lambda I, a, k: NONE)
            if name == "__mro__":
                return TupleV(o.mro)
            if name == "__annotations__":
                return DictV({k: Unknown() for k, _ in o.annots})
            if not o.ext:
                self.problem("attr", "class '%s' has no attribute '%s'" % (o.name, name))
                if name not in ("__doc__", "__module__", "__dataclass_fields__", "__members__"):
                    self.exit_to("raise", NONE)
            return Unknown()
        if isinstance(o, SuperV):
            mro = (o.obj.cls if isinstance(o.obj, Instance) else o.obj).mro
            i = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[i:]:
                if name in c.d:
                    cv = c.d[name]
                    if isinstance(cv, Prop):
                        return self.call(cv.fget, [o.obj], {})
                    if isinstance(o.obj, ClassV):
                        if isinstance(cv, ClassM):
                            return Bound(o.obj, cv.func)
                        return cv.func if isinstance(cv, Static) else cv
                    return self.bind(cv, o.obj, o.obj.cls)
            if name == "__init__":
                return Builtin("object.__init__", lambda I, a, k: NONE)
            if o.cls.ext:
                return Unknown()
            self.problem("attr", "super object of '%s' has no attribute '%s'" % (o.cls.name, name))
            self.exit_to("raise", NONE)
        if isinstance(o, EnumM):
            if name == "value":
                return o.value
            if name == "name":
                return Const(o.name)
            return Unknown()
        if isinstance(o, Prop):
            if name == "setter":
                return Builtin("setter", lambda I, a, k: Prop(o.fget, a[0], o.cached))
            if name == "getter":
                return Builtin("getter", lambda I, a, k: Prop(a[0], o.fset, o.cached))
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
            return Unknown()
        return self.M.getattr(self, o, name)

    def bind(self, cv, o, cls):
        if isinstance(cv, (Func, Builtin)):
            return Bound(o, cv)
        if isinstance(cv, Static):
            return cv.func
        if isinstance(cv, ClassM):
            return Bound(cls, cv.func)
        return cv

    def setattr(self, o, name, v):
        if isinstance(o, Union):
            return self.fork_union(o, lambda a: self.setattr(a, name, v))
        if isinstance(o, Instance):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Prop) and not cv.cached:
                if cv.fset is None:
                    self.problem("attr", "property '%s' of '%s' object has no setter" % (name, o.cls.name))
                    self.exit_to("raise", NONE)
                self.call(cv.fset, [o, v], {})
                return
            sa, _ = o.cls.lookup("__setattr__")
            if isinstance(sa, Func) and not (self.stack and self.stack[-1] is sa):
                self.call(Bound(o, sa), [Const(name), v], {})
                return
            self.write(o.d, name, v)
            return
        if isinstance(o, (ClassV, ModuleV, Func)):
            self.write(o.d, name, v)
            return
        if isinstance(o, SuperV) and isinstance(o.obj, Instance):
            mro = o.obj.cls.mro
            for c in mro[mro.index(o.cls) + 1:]:
                if isinstance(c.d.get(name), Prop):
                    self.call(c.d[name].fset, [o.obj, v], {})
                    return
            self.write(o.obj.d, name, v)
            return
        if isinstance(o, Arr) and name == "shape":
            return
        if isinstance(o, ExtObj):
            o.a[name] = v
            return
        if isinstance(o, Const) and o.v is None:
            self.exit_to("raise", NONE)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            fn = f.func
            if isinstance(fn, Func):
                return self.call_func(fn, [f.self_] + args, kw)
            return self.call(fn, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, Union):
            return self.fork_union(f, lambda a: self.call(a, args, kw))
        if isinstance(f, PartialV):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.func, list(f.args) + args, k)
        if isinstance(f, Instance):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kw)
            if not f.cls.ext:
                self.problem("call", "'%s' object is not callable" % f.cls.name)
                self.exit_to("raise", NONE)
            return self.unk(*args)
        if isinstance(f, Ext):
            return self.M.call_ext(self, f.path, args, kw)
        if isinstance(f, (Num, TupleV, ListV, Arr)) or (isinstance(f, Const)):
            if isinstance(f, Const) and f.v is None:
                self.problem("call", "None is called")
            elif not isinstance(f, Const):
                self.problem("call", "a non-callable value is called")
            self.exit_to("raise", NONE)
        if isinstance(f, Static):
            return self.call(f.func, args, kw)
        if isinstance(f, ClassM):
            return self.call(f.func, args, kw)
        self.M.escape(self, args, kw)
        return self.unk(f, *args, *kw.values())

    def instantiate(self, cls, args, kw):
        if cls.enum:
            return self.M.enum_call(self, cls, args)
        o = Instance(cls)
        o.site = self.where()
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(Bound(o, init), args, kw)
        elif (args or kw) and not cls.ext:
            self.problem("arity", "%s() takes no arguments" % cls.name)
        return o

    def call_func(self, f, args, kw):
        self.ncalls += 1
        if f.memo is not None:
            key = self.M.memo_key(args, kw)
            if key is not None and key in f.memo:
                return f.memo[key]
            m, f.memo = f.memo, None
            try:
                r = self.call_func(f, args, kw)
            finally:
                f.memo = m
            if key is not None:
                f.memo[key] = r
            return r
        if len(self.stack) > 70 or sum(1 for x in self.stack if x is f) > 5:
            return self.unk(*args)
        env = Env(f.env, f.module, f)
        if not self.bind_args(f, env, args, kw):
            self.exit_to("raise", NONE)
        self.funcs_seen.add((f.module.name, f.qual))
        if self.call_hook is not None:
            r = self.call_hook(f, env)
            if r is not None:
                return r
        save = self.cur
        self.stack.append(f)
        base = len(self.logs)
        self.logs.append({})
        fr = Frame("func", base, len(self.path))
        self.frames.append(fr)
        self.cur = (os.path.basename(f.module.path), f.qual, f.node.lineno)
        alive = True
        val = NONE
        try:
            if f.isgen:
                out = ListV(())
                env.d["<yield>"] = out
                self.exec_block(f.node.body, env)
                val = out
            elif isinstance(f.node, ast.Lambda):
                val = self.eval(f.node.body, env)
            else:
                self.exec_block(f.node.body, env)
        except PathDead:
            alive = False
        finally:
            self.frames.pop()
            self.stack.pop()
        try:
            v = self.finish_frame(fr, alive, val)
        finally:
            self.cur = save
        if f.isgen:
            return env.d.get("<yield>", val)
        return v

    def bind_args(self, f, env, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nreq = len(names) - len(f.defaults)
        kw = dict(kw)
        star = kw.pop("**", None)
        d = env.d
        pos = []
        spread = None
        for x in args:
            if isinstance(x, StarV):
                spread = x.elem if spread is None else self.join(spread, x.elem)
            elif spread is not None:
                spread = self.join(spread, x)
            else:
                pos.append(x)
        ok = True
        for i, v in enumerate(pos[:len(names)]):
            d[names[i]] = v
        extra = pos[len(names):]
        if extra and a.vararg is None:
            self.problem("arity", "%s() takes %d positional arguments but %d were given" % (f.qual, len(names), len(pos)))
            return False
        if a.vararg is not None:
            if spread is not None:
                l = ListV(None, self.join_all(list(extra) + [spread]))
                d[a.vararg.arg] = l
            else:
                d[a.vararg.arg] = TupleV(extra)
        elif spread is not None:
            for nme in names[len(pos):]:
                if nme not in kw:
                    d[nme] = spread
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names and k not in [x.arg for x in a.posonlyargs] or k in kwo:
                if k in d and k in names and names.index(k) < len(pos):
                    self.problem("arity", "%s() got multiple values for argument '%s'" % (f.qual, k))
                    return False
                d[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.problem("arity", "%s() got an unexpected keyword argument '%s'" % (f.qual, k))
                return False
        for i, nme in enumerate(names):
            if nme not in d:
                if i >= nreq:
                    d[nme] = f.defaults[i - nreq]
                elif star is not None:
                    d[nme] = star
                else:
                    self.problem("arity", "%s() missing required argument '%s'" % (f.qual, nme))
                    return False
        for x, dv in zip(kwo, f.kwdefaults):
            if x not in d:
                if dv is None:
                    if star is None:
                        self.problem("arity", "%s() missing keyword argument '%s'" % (f.qual, x))
                        return False
                    d[x] = star
                else:
                    d[x] = dv
        if a.kwarg is not None:
            dd = DictV()
            dd.d.update(rest)
            if star is not None:
                dd.d[UNK] = star
            d[a.kwarg.arg] = dd
        return ok

    def join_all(self, vs, cond=None):
        r = vs[0]
        for v in vs[1:]:
            r = self.join(r, v, cond)
        return r


class StarV:
    """unpacked sequence of unknown length"""
    kind = "star"

    def __init__(self, elem):
        self.elem = elem


def _walk_own(node):
    st = list(node.body)
    while st:
        x = st.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef, ast.GeneratorExp,
                                  ast.ListComp)):
                st.append(c)
