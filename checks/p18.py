"""No code path refers to something that does not exist."""
import ast
import os
import re
from . import common
from .common import *
from sa import resolve as R

EXPLAIN = ("name, attribute and call resolution over the syntax trees and scopes of every file of the library, its examples and its GUI "
           "(names through scopes and star imports, members of modules of the tree and of installed packages' stubs, attributes of "
           "instances of classes of the tree, arguments against parameters), and abstract interpretation of every constructor, report, build, "
           "meshing, curve question and conversion, on all branches, for missing attributes, undefined names, wrong argument lists, "
           "operations on None and on wrong types")
RULE = ("name, import, module attribute, attribute, call: every use resolves to a definition that accepts it; reached: no analysed path ends "
        "in a use that does not resolve")
ASSUME = ["classes with a base outside the tree, dynamically assigned attributes and attributes tested with hasattr are left alone",
          "installed packages are described by their stubs or sources"]
#: kinds of problems of the interpreter that are resolution failures
KINDS = {"name", "attr", "arity", "call", "import", "unpack", "euler", "none", "op", "item", "iter"}


def scenarios(tier):
    out = []
    try:
        t = R.Tree(REPO)
        out += [("resolve " + p, "sc_file", (p,)) for p in sorted(t.by_path)]
        out += [("parse " + p, "sc_syntax", (p, e)) for p, e in t.errors]
    except Exception:
        out.append(("resolve", "sc_all", ()))
    from . import p01, p13, p14, p15, p17
    for m in (p01, p13, p14, p15, p17):
        for n, f, a in m.scenarios(tier):
            out.append(("%s: %s" % (m.__name__.split(".")[-1], n), "sc_paths", (m.__name__.split(".")[-1], f, a)))
    for n, c1, o1, c2, o2, d in mesh_list(tier):
        out.append((n, "sc_mesh", (c1, o1, c2, o2, d)))
    return out


def mesh_list(tier):
    out = []
    for x in mesh_configs(tier):
        n, c1, o1, c2, o2 = x[:5]
        out.append(("mesh " + n, c1, o1, c2, o2, None))
    return out


def sc_syntax(rep, path, err):
    rep.bad("name", path, "does not parse: %s" % err)


def sc_file(rep, path):
    t = R.Tree(REPO)
    l = R.Lint(t, t.by_path[path]).run()
    rep.ok += l.ok
    for rule, where, msg in l.bad:
        # the construct names what does not resolve, so a listed finding hides nothing else in the same function
        rep.bad(rule, "%s %s" % (where, re.sub(r"^line \d+: ", "", msg)), msg)


class Quiet:
    """a report that counts nothing"""
    ok = 0
    und = 0

    def __getattr__(self, n):
        return lambda *a, **k: None


def collect(rep, X):
    seen = set()
    for kind, msg, where in X.I.problems:
        if kind in KINDS and (kind, msg, where) not in seen:
            seen.add((kind, msg, where))
            rep.bad("reached", ":".join(str(where).split(":")[:2]) + " " + msg if where else "?", "%s: %s" % (where, msg))
    if not seen:
        rep.ok += 1
    rep.engine(X)


def sc_paths(rep, mod, f, a):
    import importlib
    m = importlib.import_module("checks." + mod)
    made = []
    real = m.context

    def ctx(**kw):
        x = real(**kw)
        made.append(x)
        return x
    m.context = ctx
    try:
        getattr(m, f)(Quiet(), *a)
    except Exception as e:
        if not made:
            raise
    finally:
        m.context = real
    for X in made:
        collect(rep, X)


def sc_mesh(rep, c1, o1, c2, o2, d):
    X = context()
    mesh(X, c1, o1, c2, o2, d)
    collect(rep, X)
