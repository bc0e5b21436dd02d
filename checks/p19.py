"""Every specialised class can be used wherever its base class can."""
import ast
from .common import *
from sa import resolve as R

EXPLAIN = ("the class hierarchy of the library is built from the syntax trees; each redefinition of a method or property is compared with "
           "the definition it replaces in every base: kind, parameters by position and by name, required parameters; a flow analysis of "
           "return statements finds the methods that always return their object")
RULE = ("kind: a property stays a property (with its setter), a method a method; call: each positional parameter of the base has the same "
        "name at the same place, each keyword is accepted, nothing else is required; return: a method that always returns its object in the "
        "base does so in the redefinition, and a method that returns a value does not end without one")
ASSUME = ["constructors are not part of the comparison", "classes with bases outside the tree are compared with their bases inside"]


def scenarios(tier):
    t = R.Tree(REPO)
    return [("class " + c.name, "sc_class", (m.path, c.name)) for m in t.mods.values() if m.path.startswith("src") for c in m.classes.values() if c.bases]


def setter(c, name):
    return any(isinstance(s, ast.FunctionDef) and s.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list)
               for s in c.node.body)


def getter(c, name):
    for s in c.node.body:
        if isinstance(s, ast.FunctionDef) and s.name == name and not any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
            return s
    return None


def kind(fn):
    for d in fn.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if n in ("property", "cached_property"):
            return "property"
        if n in ("staticmethod", "classmethod"):
            return n
        if n == "abstractmethod":
            continue
        return None
    return "method"


def accepted(base, sub, skip):
    """None, or what a call of the base cannot do any more"""
    def parts(f, k):
        a = f.args
        p = [x.arg for x in a.posonlyargs + a.args]
        d = len(a.defaults)
        req = p[:len(p) - d] if d else list(p)
        return p[k:], req[k:], [x.arg for x in a.kwonlyargs], [x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is None], a.vararg, a.kwarg
    bp, br, bk, bkr, bv, bkw = parts(base, skip)
    sp, sr, sk, skr, sv, skw = parts(sub, skip)
    if len(bp) > len(sp) and not sv:
        return "takes %d positional arguments, the base takes %d" % (len(sp), len(bp))
    for i, n in enumerate(bp):
        if i < len(sp) and sp[i] != n:
            if n in sp or sp[i] in bp:
                return "argument %d is '%s' but '%s' in the base" % (i + 1, sp[i], n)
            if not skw and n not in sk:
                return "does not accept the keyword '%s' of the base" % n
        elif i >= len(sp) and not (skw or n in sk):
            return "does not accept the keyword '%s' of the base" % n
    for n in bk:
        if n not in sk and n not in sp and not skw:
            return "does not accept the keyword '%s' of the base" % n
    for n in sr:
        if n not in br and n not in bkr:
            if not (n not in bp and sp.index(n) < len(br)):
                return "requires '%s', the base does not" % n
    for n in skr:
        if n not in bkr and n not in br:
            return "requires '%s', the base does not" % n
    if bv and not sv:
        return "does not accept any number of positional arguments"
    if bkw and not skw:
        return "does not accept arbitrary keywords"
    return None


def returns(fn):
    """the set of what a function can end with: 'self', 'value', 'none'"""
    out = set()
    me = (fn.args.posonlyargs + fn.args.args)[0].arg if fn.args.posonlyargs + fn.args.args else None
    for x in R.own_nodes(fn):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return {"value"}
        if isinstance(x, ast.Return):
            if x.value is None or (isinstance(x.value, ast.Constant) and x.value.value is None):
                out.add("none")
            elif isinstance(x.value, ast.Name) and x.value.id == me:
                out.add("self")
            else:
                out.add("value")
    if falls(fn.body):
        out.add("none")
    return out


def falls(body):
    """can the end of the block be reached?"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            if s.orelse and not falls(s.body) and not falls(s.orelse):
                return False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            if not falls(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not falls(s.finalbody):
                return False
            if not falls(s.body + s.orelse) and all(not falls(h.body) for h in s.handlers):
                return False
        elif isinstance(s, ast.While):
            if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return False
        elif isinstance(s, ast.Match):
            if any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases) \
                    and all(not falls(c.body) for c in s.cases):
                return False
    return True


def abstract(fn):
    """a body that only says it is not implemented"""
    b = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or all(isinstance(s, (ast.Pass, ast.Raise)) for s in b)


def sc_class(rep, path, name):
    t = R.Tree(REPO)
    c = t.by_path[path].classes[name]
    names = {s.name for s in c.node.body if isinstance(s, ast.FunctionDef)}
    for n in sorted(names):
        if n in ("__init__", "__new__", "__post_init__"):
            continue
        sub = getter(c, n)
        for b in t.mro(c)[1:]:
            base = getter(b, n)
            if base is None:
                continue
            w = "%s.%s" % (name, n)
            if sub is None:
                # only the setter is redefined on the inherited property
                rep.good("kind")
                continue
            kb, ks = kind(base), kind(sub)
            if kb is None or ks is None:
                rep.unk("%s is decorated" % w)
                continue
            rep.check(kb == ks, "kind", w, "is a %s, but a %s in %s" % (ks, kb, b.name), w)
            if kb != ks:
                continue
            if setter(b, n):
                rep.check(setter(c, n), "kind", w, "can be assigned in %s, not in %s" % (b.name, name), w)
            if kb != "property":
                e = accepted(base, sub, 0 if kb == "staticmethod" else 1)
                rep.check(e is None, "call", w, "%s (%s)" % (e, b.name), w)
            rb, rs = returns(base), returns(sub)
            if abstract(base) or abstract(sub):
                continue
            if rb == {"self"}:
                # the result of a call such as super().m() counts as the object itself
                rep.check(rs <= {"self", "value"}, "return", w, "can end without returning the object, %s always returns it" % b.name, w)
            elif rs == {"self"}:
                rep.check("none" not in rb, "return", "%s.%s" % (b.name, n), "can end without returning the object, %s always returns it" % name, w)
            elif "none" not in rb and rb:
                rep.check("none" not in rs, "return", w, "can end without a value, %s always returns one" % b.name, w)
            else:
                rep.good("return")
    rep.good("class")
