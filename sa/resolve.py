"""Static name, attribute and call resolution over a source tree (no code is run).

Every module of the tree is parsed; `symtable` gives the scopes, the syntax tree the uses.  External modules are read from their installed
stubs or sources, only for the names they define.  Anything that cannot be resolved with certainty is left alone."""
import ast
import builtins
import glob
import os
import symtable
import sys

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__class__", "__builtins__"}
OBJECT = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__module__", "__annotations__", "__bases__", "__mro__", "__subclasses__",
                             "__slots__", "__weakref__", "__dataclass_fields__", "__code__", "__defaults__"}
SITE = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"), reverse=True) + sorted(glob.glob("/usr/lib/python3*"), reverse=True) \
    + sorted(glob.glob("/usr/local/lib/python3*"), reverse=True) + sorted(glob.glob("/opt/**/lib/python3.1?", recursive=False), reverse=True)


class Mod:
    def __init__(self, name, path, tree, src, pkg):
        self.name, self.path, self.tree, self.src, self.pkg = name, path, tree, src, pkg


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.bases, self.subs = [], []
        self.open = False           # a base that is not known


class Fn:
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls = node, mod, cls


class Ext:
    """an external module, by dotted name"""
    def __init__(self, name):
        self.name = name


UNKNOWN = object()


class Tree:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.by_path = {}
        self.errors = []
        src = os.path.join(root, "src")
        for base, prefix in ((src, ""), (os.path.join(root, "examples"), "examples."), (os.path.join(root, "gui"), "gui.")):
            for d, dirs, files in os.walk(base):
                dirs[:] = [x for x in dirs if not x.startswith((".", "__")) and not x.endswith(".egg-info")]
                for f in sorted(files):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                        pkg = rel.endswith("__init__") or rel == "__init__"
                        n = prefix + (rel[:-9].rstrip(".") if pkg else rel)
                        try:
                            s = open(p, encoding="utf8").read()
                            m = Mod(n, os.path.relpath(p, root), ast.parse(s), s, pkg)
                        except (SyntaxError, ValueError) as e:
                            self.errors.append((os.path.relpath(p, root), str(e)))
                            continue
                        self.mods[n] = m
                        self.by_path[m.path] = m
        self._ns, self._ext, self._ext_busy = {}, {}, set()
        self.loose, self.guarded = set(), set()
        for m in self.mods.values():
            self._bind(m)
        for m in self.mods.values():
            self._classes(m)

    # ------------------------------------------------------------ module level bindings
    def _bind(self, m):
        m.binds = {}        # name -> ("fn",node) ("cls",Cls) ("mod",dotted) ("from",dotted,name) ("var",None)
        m.stars = []
        m.classes = {}

        def put(n, v):
            if n in m.binds and m.binds[n] != v:
                a = m.binds[n]
                m.binds[n] = ("alt", (a[1] if a[0] == "alt" else [a]) + [v])
            else:
                m.binds[n] = v

        def target(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    put(x.id, ("var", None))

        def visit(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    put(s.name, ("fn", Fn(s, m)))
                elif isinstance(s, ast.ClassDef):
                    c = Cls(s, m)
                    m.classes[s.name] = c
                    put(s.name, ("cls", c))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            put(a.asname, ("mod", a.name))
                        else:
                            put(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    d = self.absname(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(d)
                        else:
                            put(a.asname or a.name, ("from", d, a.name))
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.AsyncFor, ast.AsyncWith)):
                    for x in ast.iter_child_nodes(s):
                        if isinstance(x, (ast.expr, ast.withitem)):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                    put(y.id, ("var", None))
                    for f in ("body", "orelse", "finalbody"):
                        visit(getattr(s, f, []))
                    for h in getattr(s, "handlers", []):
                        if h.name:
                            put(h.name, ("var", None))
                        visit(h.body)
                elif isinstance(s, ast.Match):
                    for c in s.cases:
                        for y in ast.walk(c.pattern):
                            if getattr(y, "name", None):
                                put(y.name, ("var", None))
                        visit(c.body)
                else:
                    target(s)
        visit(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    put(x, ("var", None))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                self.loose.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr", "delattr") and len(n.args) > 1:
                a = n.args[1]
                if isinstance(a, ast.Constant):
                    self.guarded.add(a.value)
                elif n.func.id == "setattr":
                    self.guarded.add(None)

    def absname(self, m, s):
        if not s.level:
            return s.module
        parts = m.name.split(".")
        if not m.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    # ------------------------------------------------------------ namespaces
    def names(self, m, seen=()):
        """all names of a module of the tree; None when a star import is not resolvable"""
        if m.name in self._ns:
            return self._ns[m.name]
        if m.name in seen:
            return set(m.binds)
        out = set(m.binds)
        known = True
        for d in m.stars:
            e = self.exported(d, seen + (m.name,))
            if e is None:
                known = False
            else:
                out |= e
        if m.pkg:
            pre = m.name + "."
            out |= {x[len(pre):].split(".")[0] for x in self.mods if x.startswith(pre)}
        r = out if known else None
        if not seen:
            self._ns[m.name] = r
        return r

    def all_of(self, tree):
        for s in tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                try:
                    return set(ast.literal_eval(s.value))
                except ValueError:
                    return None
        return None

    def exported(self, dotted, seen=()):
        """names that `from dotted import *` gives"""
        if dotted in self.mods:
            m = self.mods[dotted]
            a = self.all_of(m.tree)
            if a is not None:
                return a
            n = self.names(m, seen)
            return None if n is None else {x for x in n if not x.startswith("_")}
        e = self.ext(dotted)
        if e is None:
            return None
        if e[1] is not None:
            return e[1]
        return {x for x in e[0] if not x.startswith("_")}

    def ext_path(self, dotted):
        parts = dotted.split(".")
        for s in SITE:
            b = os.path.join(s, *parts)
            for p in (os.path.join(b, "__init__.pyi"), os.path.join(b, "__init__.py"), b + ".pyi", b + ".py"):
                if os.path.isfile(p):
                    return p
        return None

    def ext(self, dotted):
        """(names, __all__ or None) of an external module, or None when not known"""
        if dotted in self._ext:
            return self._ext[dotted]
        if dotted in self._ext_busy:
            return set(), None
        self._ext_busy.add(dotted)
        r = None
        p = self.ext_path(dotted)
        if p is not None:
            try:
                r = self._ext_names(dotted, p)
            except (SyntaxError, ValueError, OSError, RecursionError):
                r = None
        self._ext_busy.discard(dotted)
        self._ext[dotted] = r
        return r

    def _ext_names(self, dotted, p):
        tree = ast.parse(open(p, encoding="utf8").read())
        m = Mod(dotted, p, tree, "", "__init__" in os.path.basename(p))
        loose, guarded = set(self.loose), set(self.guarded)
        self._bind(m)
        self.loose, self.guarded = loose, guarded
        if "__getattr__" in m.binds:
            return None
        out = set(m.binds)
        for d in m.stars:
            e = self.exported(d) if d else None
            if e is None:
                return None
            out |= e
        for s in ast.walk(tree):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("globals", "vars", "exec"):
                return None
        if m.pkg:
            d = os.path.dirname(p)
            for f in os.listdir(d):
                out.add(f.split(".")[0])
        a = self.all_of(tree)
        if a is not None:
            out |= a
        return out, a

    def lookup(self, m, name, seen=()):
        """what a module level name stands for: Mod, Ext, Cls, Fn, UNKNOWN (exists) or None (does not exist)"""
        if (m.name, name) in seen:
            return UNKNOWN
        b = m.binds.get(name)
        if b is not None:
            return self._resolve(m, b, seen + ((m.name, name),))
        if m.pkg and m.name + "." + name in self.mods:
            return self.mods[m.name + "." + name]
        for d in reversed(m.stars):
            e = self.exported(d)
            if e is None:
                return UNKNOWN
            if name in e:
                if d in self.mods:
                    return self.lookup(self.mods[d], name, seen + ((m.name, name),))
                return UNKNOWN
        return None

    def _resolve(self, m, b, seen):
        k = b[0]
        if k == "fn":
            return b[1]
        if k == "cls":
            return b[1]
        if k == "mod":
            return self.module(b[1])
        if k == "from":
            if b[1] in self.mods:
                r = self.lookup(self.mods[b[1]], b[2], seen)
                if r is None and b[1] + "." + b[2] in self.mods:
                    return self.mods[b[1] + "." + b[2]]
                return r if r is not None else UNKNOWN
            if self.ext_path(b[1] + "." + b[2]):
                return Ext(b[1] + "." + b[2])
            return UNKNOWN
        return UNKNOWN

    def module(self, dotted):
        if dotted in self.mods:
            return self.mods[dotted]
        return Ext(dotted)

    # ------------------------------------------------------------ classes
    def _classes(self, m):
        for c in m.classes.values():
            for b in c.node.bases:
                r = self.expr(m, b)
                if isinstance(r, Cls):
                    c.bases.append(r)
                    r.subs.append(c)
                elif isinstance(b, ast.Name) and b.id == "object":
                    pass
                elif (b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "") in ("Enum", "IntEnum", "StrEnum", "Flag", "ABC"):
                    c.enum = True
                else:
                    c.open = True
            if c.node.keywords:
                c.open = True

    def mro(self, c):
        out, st = [], [c]
        while st:
            x = st.pop(0)
            if x not in out:
                out.append(x)
                st = x.bases + st
        return out

    def subs(self, c):
        out, st = [], [c]
        while st:
            x = st.pop()
            if x not in out:
                out.append(x)
                st += x.subs
        return out

    def own(self, c):
        """attributes the class itself gives its instances: name -> Fn or UNKNOWN"""
        if hasattr(c, "_own"):
            return c._own
        out = {}
        c._types = {}

        def store(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out[x.id] = UNKNOWN

        def body(bs):
            for s in bs:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out[s.name] = Fn(s, c.mod, c) if s.name not in out or not s.decorator_list else UNKNOWN
                    if s.args.posonlyargs + s.args.args:
                        me = (s.args.posonlyargs + s.args.args)[0].arg
                        for x in ast.walk(s):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == me:
                                out.setdefault(x.attr, UNKNOWN)
                            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) \
                                    and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == me:
                                c._types.setdefault(x.targets[0].attr, []).append((s, x.value))
                            if isinstance(x, ast.Attribute) and x.attr == "__dict__" and isinstance(x.value, ast.Name) and x.value.id == me \
                                    and isinstance(x.ctx, ast.Store):
                                c.open = True
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars") and x.args \
                                    and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                                c.open = True
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "__setitem__") \
                                    and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "__dict__":
                                c.open = True
                elif isinstance(s, ast.ClassDef):
                    out[s.name] = UNKNOWN
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        out[(a.asname or a.name).split(".")[0]] = UNKNOWN
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name):
                        out[s.target.id] = UNKNOWN
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for f in ("body", "orelse", "finalbody"):
                        body(getattr(s, f, []))
                else:
                    store(s)
        body(c.node.body)
        if "__getattr__" in out or "__getattribute__" in out or "__setattr__" in out:
            c.open = True
        for d in c.node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            n = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ""
            if n != "dataclass":
                c.open = True
            else:
                c.data = True
        c._own = out
        return out

    def member(self, c, name, below=True):
        """Fn / UNKNOWN when the class (or, with below, one of its subclasses) has the attribute; None when not; UNKNOWN if not known"""
        for k in self.mro(c):
            o = self.own(k)
            if name in o:
                return o[name]
        if name in OBJECT:
            return UNKNOWN
        for k in self.mro(c):
            if k.open:
                return UNKNOWN
            if getattr(k, "enum", False) and name in ("name", "value", "__members__", "_value_", "_name_"):
                return UNKNOWN
        if below:
            for k in self.subs(c):
                if k is not c:
                    r = self.member(k, name, False)
                    if r is not None:
                        return UNKNOWN
        return None

    # ------------------------------------------------------------ expressions at module level
    def expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id) if e.id not in BUILTINS or e.id in m.binds else UNKNOWN
        if isinstance(e, ast.Attribute):
            v = self.expr(m, e.value)
            return self.attr(v, e.attr)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return UNKNOWN
        return UNKNOWN

    def attr(self, v, name):
        if isinstance(v, Mod):
            return self.lookup(v, name) if name not in ("__name__", "__file__", "__doc__", "__dict__", "__path__", "__version__") else UNKNOWN
        if isinstance(v, Ext):
            if self.ext_path(v.name + "." + name):
                return Ext(v.name + "." + name)
            e = self.ext(v.name)
            if e is None:
                return UNKNOWN
            return UNKNOWN if name in e[0] or (name.startswith("__") and name.endswith("__")) else None
        return UNKNOWN

    # ------------------------------------------------------------ signatures
    def fields(self, c):
        """constructor parameters of a dataclass: list of (name, has default), or None"""
        ms = self.mro(c)
        out = {}
        for k in reversed(ms):
            self.own(k)
            if not getattr(k, "data", False):
                if any(isinstance(s, ast.AnnAssign) for s in k.node.body):
                    continue
                continue
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    ann = ast.unparse(s.annotation)
                    if "ClassVar" in ann:
                        continue
                    d = s.value is not None
                    if isinstance(s.value, ast.Call) and "field" in ast.unparse(s.value.func):
                        kws = {x.arg for x in s.value.keywords}
                        if "init" in kws or "kw_only" in kws:
                            return None
                        d = bool(kws & {"default", "default_factory"})
                    out[s.target.id] = d
        return list(out.items())

    def ctor(self, c):
        """('fn', node) / ('data', fields) / ('none',) / None"""
        for k in self.mro(c):
            o = self.own(k)
            for n in ("__init__", "__new__"):
                if n in o:
                    return ("fn", o[n].node) if isinstance(o[n], Fn) else None
            if k.open or getattr(k, "enum", False):
                return None
            if getattr(k, "data", False):
                f = self.fields(c)
                return None if f is None else ("data", f)
        return ("none",)

    @staticmethod
    def plain(fn):
        """how a function found in a class body is called: 'method', 'static', 'class', 'property' or None"""
        ds = fn.decorator_list
        if not ds:
            return "method"
        if len(ds) == 1 and isinstance(ds[0], ast.Name) and ds[0].id in ("staticmethod", "classmethod", "property"):
            return {"staticmethod": "static", "classmethod": "class", "property": "property"}[ds[0].id]
        return None

    @staticmethod
    def accepts(fn, call, skip):
        """None when the call fits the parameters, else what is wrong"""
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = pos[:len(pos) - len(a.defaults)] if a.defaults else list(pos)
        pos, req = pos[skip:], req[skip:]
        return fits(pos, set(req), [x.arg for x in a.kwonlyargs], {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None},
                    a.vararg is not None, a.kwarg is not None, call, {x.arg for x in a.posonlyargs})


def fits(pos, req, kwonly, kwreq, var, kwvar, call, posonly=()):
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if not var and n > len(pos):
        return "takes %d positional arguments but %d are given" % (len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star and k.arg not in posonly:
            return "gets two values for argument '%s'" % k.arg
        if k.arg not in pos and k.arg not in kwonly and not kwvar:
            return "has no parameter '%s'" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [x for x in pos if x in req and x not in given] + [x for x in kwonly if x in kwreq and x not in given]
        if miss:
            return "is called without '%s'" % miss[0]
    return None


class Lint:
    """all obligations of one module"""

    def __init__(self, tree, mod):
        self.t, self.m = tree, mod
        self.ok, self.bad, self.counts = 0, [], {}

    def hold(self, rule):
        self.ok += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def fail(self, rule, where, msg, line):
        self.bad.append((rule, "%s:%s" % (self.m.path, where), "line %d: %s" % (line, msg)))

    def run(self):
        self.names()
        self.imports()
        fake = ast.parse("def module(): pass").body[0]
        fake.body = self.m.tree.body
        self.env0 = {}
        env = self.locals_of(fake, {}, None)
        self.env0 = {k: v for k, v in env.items() if v is not UNKNOWN}
        self.walk(self.m.tree.body, [], dict(self.env0), None)
        return self

    # names -------------------------------------------------------
    def names(self):
        ns = self.t.names(self.m)
        if ns is None:
            return
        top = symtable.symtable(self.m.src, self.m.path, "exec")
        lines = {}
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Name):
                lines.setdefault(n.id, n.lineno)

        def visit(t, path):
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced():
                    continue
                if t.get_type() == "module":
                    free = not (s.is_assigned() or s.is_imported() or s.is_namespace())
                else:
                    free = s.is_global()
                if not free:
                    continue
                if n in ns or n in BUILTINS or n.startswith("_%s__" % t.get_name().lstrip("_")):
                    self.hold("name")
                else:
                    self.fail("name", ".".join(path) or "<module>", "name '%s' is not defined" % n, lines.get(n, t.get_lineno()))
            for k in t.get_children():
                visit(k, path + [k.get_name()])
        visit(top, [])

    def imports(self):
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.ImportFrom):
                d = self.t.absname(self.m, n)
                for a in n.names:
                    if a.name == "*":
                        continue
                    if d in self.t.mods:
                        e = self.t.names(self.t.mods[d])
                        if e is None:
                            continue
                        good = a.name in e
                    else:
                        x = self.t.ext(d) if d else None
                        if x is None:
                            continue
                        good = a.name in x[0] or self.t.ext_path(d + "." + a.name) is not None
                    if good:
                        self.hold("import")
                    else:
                        self.fail("import", "<module>", "%s has no member '%s'" % (d, a.name), n.lineno)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] in {x.split(".")[0] for x in self.t.mods} and a.name not in self.t.mods:
                        self.fail("import", "<module>", "there is no module '%s'" % a.name, n.lineno)

    # attributes and calls ---------------------------------------
    def walk(self, body, path, env, cls):
        """statements of one scope; env: local name -> Cls (type of the value) or UNKNOWN"""
        for s in body:
            self.stmt(s, path, env, cls)

    def stmt(self, s, path, env, cls):
        if isinstance(s, ast.ClassDef):
            c = self.m.classes.get(s.name) if not path else None
            for d in s.decorator_list + s.bases:
                self.ex(d, path, env, cls)
            self.walk(s.body, path + [s.name], {}, c)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.func(s, path, env, cls)
            return
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.stmt):
                self.stmt(x, path, env, cls)
            elif isinstance(x, ast.expr):
                self.ex(x, path, env, cls)
            else:
                for y in ast.iter_child_nodes(x):
                    if isinstance(y, ast.stmt):
                        self.stmt(y, path, env, cls)
                    elif isinstance(y, ast.expr):
                        self.ex(y, path, env, cls)

    def locals_of(self, fn, outer, cls):
        """types of the local names: parameters by annotation, names assigned exactly once by their value"""
        env = dict(outer)
        a = fn.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        params = {p.arg for p in ps} | {x.arg for x in (a.vararg, a.kwarg) if x}
        sites, decl = {}, set()
        for x in own_nodes(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                sites.setdefault(x.id, []).append(x)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                sites.setdefault(x.name, []).append(x)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                decl |= set(x.names)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and x is not fn:
                sites.setdefault(x.name, []).append(x)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    sites.setdefault((al.asname or al.name).split(".")[0], []).append(x)
        for n in set(sites) | params | decl:
            env[n] = UNKNOWN
        kind = self.t.plain(fn) if cls is not None else None
        if cls is not None and kind in ("method", "property", "class") and ps:
            env[ps[0].arg] = ("self", cls) if kind != "class" else ("cls", cls)
        elif cls is not None and ps and kind is None and any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") for d in fn.decorator_list):
            env[ps[0].arg] = ("self", cls)
        for p in ps:
            if env[p.arg] is UNKNOWN and p.annotation is not None and p.arg not in sites:
                c = self.t.expr(self.m, p.annotation)
                if isinstance(c, Cls):
                    env[p.arg] = ("inst", c)
        for x in own_nodes(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                n = x.targets[0].id
                if len(sites[n]) == 1 and n not in params and n not in decl:
                    c = self.made(x.value, env)
                    if c is not None:
                        env[n] = c
        return env

    def made(self, e, env):
        """('inst', Cls) when the expression creates an instance of a class of the tree"""
        if isinstance(e, ast.Call):
            r = self.typ(e.func, env)
            if isinstance(r, Cls):
                return ("exact", r)
        return None

    def func(self, s, path, env, cls):
        for d in s.decorator_list:
            self.ex(d, path, env, cls)
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
            self.ex(d, path, env, cls)
        inner = self.locals_of(s, env if not (cls is not None and len(path) == 1) else self.env0, cls)
        self.walk(s.body, path + [s.name], inner, None if cls is None else None)

    def typ(self, e, env):
        """Mod, Ext, Cls, Fn, ('inst'|'self'|'cls'|'exact', Cls) or UNKNOWN, of an expression; problems are reported elsewhere"""
        t = self.t
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return t.expr(self.m, e) or UNKNOWN
        if isinstance(e, ast.Attribute):
            v = self.typ(e.value, env)
            if isinstance(v, (Mod, Ext)):
                return t.attr(v, e.attr) or UNKNOWN
            if isinstance(v, Cls):
                r = t.member(v, e.attr)
                return ("unbound", v, r) if isinstance(r, Fn) else UNKNOWN
            if isinstance(v, tuple) and v[0] in ("inst", "self", "exact", "cls"):
                r = t.member(v[1], e.attr, v[0] != "exact")
                if isinstance(r, Fn):
                    k = t.plain(r.node)
                    if k == "property":
                        c = t.expr(r.mod, r.node.returns) if r.node.returns is not None else None
                        return ("inst", c) if isinstance(c, Cls) else UNKNOWN
                    return ("bound", v, r)
                if r is UNKNOWN:
                    c = self.held(v[1], e.attr)
                    if c is not None:
                        return ("inst", c)
            return UNKNOWN
        if isinstance(e, ast.Call):
            return self.made(e, env) or UNKNOWN
        return UNKNOWN

    def held(self, c, name):
        """the class of what an attribute always holds"""
        t = self.t
        found = set()
        ann = None
        for k in t.mro(c) + [x for x in t.subs(c)]:
            t.own(k)
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    ann = t.expr(k.mod, s.annotation)
            for fn, v in k._types.get(name, []):
                r = t.expr(k.mod, v.func) if isinstance(v, ast.Call) else None
                found.add(r if isinstance(r, Cls) else None)
        if isinstance(ann, Cls) and not found:
            return ann
        if len(found) == 1 and None not in found and name not in t.loose:
            return list(found)[0]
        return None

    def ex(self, e, path, env, cls):
        where = ".".join(path) or "<module>"
        for x in walk_expr(e):
            if isinstance(x, ast.Lambda):
                inner = dict(env)
                for p in x.args.posonlyargs + x.args.args + x.args.kwonlyargs + [y for y in (x.args.vararg, x.args.kwarg) if y]:
                    inner[p.arg] = UNKNOWN
                for d in x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                    self.ex(d, path, env, cls)
                self.ex(x.body, path, inner, cls)
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = dict(env)
                for g in x.generators:
                    for y in ast.walk(g.target):
                        if isinstance(y, ast.Name):
                            inner[y.id] = UNKNOWN
                for g in x.generators:
                    self.ex(g.iter, path, inner, cls)
                    for i in g.ifs:
                        self.ex(i, path, inner, cls)
                for f in ("elt", "key", "value"):
                    if hasattr(x, f):
                        self.ex(getattr(x, f), path, inner, cls)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                self.attribute(x, where, env)
            elif isinstance(x, ast.Call):
                self.call(x, where, env, path)

    def attribute(self, x, where, env):
        t = self.t
        v = self.typ(x.value, env)
        if isinstance(v, (Mod, Ext)):
            if t.attr(v, x.attr) is None:
                if isinstance(v, Mod) and t.names(v) is None:
                    return
                self.fail("module attribute", where, "module '%s' has no attribute '%s'" % (v.name, x.attr), x.lineno)
            else:
                self.hold("module attribute")
            return
        c, below = None, True
        if isinstance(v, Cls):
            c = v
        elif isinstance(v, tuple) and v[0] in ("inst", "self", "cls", "exact"):
            c, below = v[1], v[0] != "exact"
        if c is None:
            return
        if x.attr in t.guarded or None in t.guarded:
            return
        r = t.member(c, x.attr, below)
        if r is None and x.attr in t.loose:
            return
        if r is None:
            self.fail("attribute", where, "'%s' has no attribute '%s'" % (c.name, x.attr), x.lineno)
        else:
            self.hold("attribute")

    def call(self, x, where, env, path):
        t = self.t
        v = self.typ(x.func, env)
        if isinstance(v, Fn):
            if v.node.decorator_list:
                return
            self.fit(t.accepts(v.node, x, 0), "%s()" % v.node.name, where, x)
        elif isinstance(v, Cls):
            k = t.ctor(v)
            if k is None:
                return
            if k[0] == "fn":
                if not k[1].decorator_list:
                    self.fit(t.accepts(k[1], x, 1), "%s()" % v.name, where, x)
            elif k[0] == "data":
                self.fit(fits([n for n, d in k[1]], {n for n, d in k[1] if not d}, [], set(), False, False, x), "%s()" % v.name, where, x)
            else:
                self.fit(fits([], set(), [], set(), False, False, x), "%s()" % v.name, where, x)
        elif isinstance(v, tuple) and v[0] == "bound":
            _, (how, c), r = v
            cand = [r]
            if how != "exact":
                for k in t.subs(c):
                    q = t.member(k, r.node.name, False)
                    if isinstance(q, Fn) and q not in cand:
                        cand.append(q)
                    elif q is UNKNOWN:
                        return
            errs = []
            for q in cand:
                k = t.plain(q.node)
                if k is None or k == "property":
                    return
                if k == "method" and how == "cls":
                    return
                errs.append(t.accepts(q.node, x, 0 if k == "static" else 1))
            self.fit(None if None in errs else errs[0], "%s.%s()" % (c.name, r.node.name), where, x)
        elif isinstance(v, tuple) and v[0] == "unbound":
            _, c, r = v
            k = t.plain(r.node)
            if k in ("static", "class"):
                self.fit(t.accepts(r.node, x, 0 if k == "static" else 1), "%s.%s()" % (c.name, r.node.name), where, x)
            elif k == "method":
                self.fit(t.accepts(r.node, x, 0), "%s.%s()" % (c.name, r.node.name), where, x)
        elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) \
                and x.func.value.func.id == "super" and not x.func.value.args and path and path[0] in self.m.classes:
            c = self.m.classes[path[0]]
            if len(path) < 2 or len(c.bases) != 1 or c.open:
                return
            n = x.func.attr
            b = c.bases[0]
            if n == "__init__":
                k = t.ctor(b)
                if k is not None and k[0] == "fn" and not k[1].decorator_list:
                    self.fit(t.accepts(k[1], x, 1), "%s.__init__()" % b.name, where, x)
                return
            r = t.member(b, n, False)
            if r is None:
                self.fail("attribute", where, "no base class of '%s' has '%s'" % (c.name, n), x.lineno)
            elif isinstance(r, Fn) and t.plain(r.node) == "method":
                self.fit(t.accepts(r.node, x, 1), "%s.%s()" % (b.name, n), where, x)

    def fit(self, err, name, where, x):
        if err:
            self.fail("call", where, "%s %s" % (name, err), x.lineno)
        else:
            self.hold("call")


def own_nodes(fn):
    """nodes of a function body without nested functions' bodies (their names are included)"""
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak, treat them as assignments
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    yield y.target
            continue
        st.extend(ast.iter_child_nodes(x))


def walk_expr(e):
    """sub-expressions, not into lambdas and comprehensions (these are given themselves)"""
    st = [e]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        st.extend(y for y in ast.iter_child_nodes(x) if isinstance(y, (ast.expr, ast.keyword, ast.comprehension, ast.FormattedValue, ast.slice if hasattr(ast, "slice") else ast.expr)))
