"""Copies are fully independent of their original."""
from .common import *
from .facts import core_gear
from . import curves as C

EXPLAIN = ("ownership analysis: every heap object and array reachable from a copy (through attributes, containers, bound methods and the "
           "variables captured by stored functions) is compared with those reachable from the original")
RULE = ("share: no object or array storage that is reachable from both is reachable in either of them through attributes and containers "
        "(storage only captured by functions cannot be changed); equal: a fresh copy has the same class and value in every attribute")
ASSUME = ["copy.deepcopy follows Python's rules: functions are shared, bound methods and instances are copied",
          "CAD kernel objects are treated as values"]


def plain(root):
    """storage reachable through attributes and containers only"""
    out = {}
    st, seen = [("", root)], set()
    while st:
        path, v = st.pop()
        if isinstance(v, Arr):
            for r in v.roots():
                out.setdefault(r.uid, path)
            continue
        if isinstance(v, (ClassV, ModuleV, Func)):
            continue
        if isinstance(v, V):
            if v.uid in seen:
                continue
            seen.add(v.uid)
            if isinstance(v, (Instance, DictV, ListV)):
                out.setdefault(v.uid, path)
        ch = children(v)
        if ch:
            st.extend((path + l, x) for l, x in ch)
    return out


def answers(X, o):
    """what an object says: points of a curve, recipe and reports of a gear"""
    out = {}
    z = scalar("probe")
    if o.cls.lookup("__call__")[0] is not None:
        ok, v = X.guard(lambda: X.call(o, z))
        if ok:
            out.update(flatten(v, "point"))
    core = o.d.get("gearcore", o)
    if isinstance(core, Instance) and "shape_recipe" in core.d:
        ok, v = X.guard(lambda: X.call(core.d["shape_recipe"], z))
        if ok:
            out.update({p: l for p, l in flatten(v, "recipe", skip=(">",)).items() if "<" not in p})
    for n in props_of(o.cls):
        ok, v = X.guard(lambda: X.I.getattr(o, n))
        if ok:
            out.update({p: l for p, l in flatten(v, n, skip=(">",)).items() if "<" not in p})
    return out


def scramble(objs):
    """give every number stored in the objects another arbitrary value; returns an undo function"""
    undo = []

    def other(n, k):
        t = T.tensor(("in", k)) if n.shape != () else T.scalar(("in", k))
        return Num(None, n.shape, None, frozenset([k]), n.dim, n.rot, n.wt, n.ang, t, n.isint)
    for u, v in objs.items():
        undo.append((v, dict(v.d)))
        if isinstance(v, Arr):
            v.d["n"] = other(v.n, "changed%d" % u)
        elif isinstance(v, (Instance, DictV)):
            for k, x in list(v.d.items()):
                if isinstance(x, Num) and not isinstance(x.const, bool):
                    v.d[k] = other(x, "changed%d.%s" % (u, k))
    def back():
        for v, d in undo:
            v.d.clear()
            v.d.update(d)
    return back


def independent(rep, X, a, b, what):
    ra, rb = reach(a), reach(b)
    pa, pb = plain(a), plain(b)
    n = 0
    shared = set(ra) & set(rb)
    both = {u for u in shared if u in pa and u in pb}
    for u in both:
        rep.bad("share", "%s: %s" % (what, norm(pa[u])), "is also %s of the copy" % norm(pb[u]))
        n += 1
    # storage of one that is only captured by a function of the other: does changing it change what the other says?
    for one, other, side in ((pa, b, rb), (pb, a, ra)):
        sus = {u: side[u][1] for u in shared - both if u in one}
        if not sus:
            continue
        before = answers(X, other)
        back = scramble(sus)
        after = answers(X, other)
        back()
        ch, un = diff(before, after)
        if ch:
            u = min(sus, key=lambda u: len(one[u]))
            rep.bad("share", "%s: %s" % (what, norm(one[u])), "is captured as %s; changing it changes %s of the other object" % (side[u][0], ch[0]))
            n += 1
    rep.ok += len(rb) - n


def norm(p):
    return p.lstrip(".") or "the object itself"


def equal(rep, X, a, b, what):
    fa, fb = [{p: l for p, l in flatten(x, "", skip=(">",)).items() if "<" not in p} for x in (a, b)]
    ch, un = diff(fa, fb)
    for p in ch:
        if fa.get(p, ("",))[0] == "ref" or fb.get(p, ("",))[0] == "ref":
            continue
        rep.bad("equal", "%s: %s" % (what, norm(p)), "differs between the object and its copy")
    rep.ok += max(0, len(fa) - len(ch) - len(un))


def sc_gear(rep, c, o, built):
    X = context()
    g = make(X, c, o)
    profile_hook(X)
    if built:
        ok, _ = build(X, g)
        if not ok:
            rep.unk("build always raises")
            return
    for m in ("copy",):
        if g.cls.lookup(m)[0] is None:
            rep.unk("%s.%s" % (c, m))
            continue
        ok, k = X.guard(lambda: X.meth(g, m))
        if ok:
            rep.check(isinstance(k, Instance) and k.cls is g.cls, "equal", "%s.%s" % (c, m), "the copy has another class")
            independent(rep, X, g, k, "%s.%s" % (c, m))
            equal(rep, X, g, k, "%s.%s" % (c, m))
    rep.engine(X)


def sc_core(rep, cone):
    X = context()
    g = core_gear(X, cone=cone)
    profile_hook(X)
    ok, k = X.guard(lambda: X.meth(g, "copy"))
    if ok:
        independent(rep, X, g, k, "Gear.copy")
        equal(rep, X, g, k, "Gear.copy")
    rep.engine(X)


def sc_curve(rep, kind, how):
    X = context()
    c = C.mk(X, kind, "c.")
    C.treat(X, c, how)
    ok, k = X.guard(lambda: X.meth(c, "copy"))
    if ok:
        rep.check(isinstance(k, Instance) and k.cls is c.cls, "equal", "%s.copy" % kind, "the copy has another class")
        independent(rep, X, c, k, "copy of %s" % kind)
        equal(rep, X, c, k, "copy of %s" % kind)
    ok, k = X.guard(lambda: X.meth(c, "cut", scalar("s")))
    if ok and isinstance(k, TupleV) and len(k.items) == 2:
        for i in (0, 1):
            independent(rep, X, c, k.items[i], "cut of %s" % kind)
        independent(rep, X, k.items[0], k.items[1], "two pieces of a cut %s" % kind)
    if "Chain" in kind or "NURBS" == kind[:5]:
        for n in ("fillet", "fillet_at_locations"):
            if c.cls.lookup(n)[0] is not None:
                ok, k = X.guard(lambda: X.meth(c, n, scalar("fillet_radius", 1, "+")))
                if ok:
                    independent(rep, X, c, k, "%s of %s" % (n, kind))
    if "TransformedCurve" not in kind:
        ok, k = X.guard(lambda: X.call(X.name("convert_curve_nurbezier", "curve"), c))
        if ok and isinstance(k, Instance):
            independent(rep, X, c, k, "NURBS conversion of %s" % kind)
    rep.engine(X)


def scenarios(tier):
    out = []
    for n, c, o in configs(tier):
        out.append(("gear " + n, "sc_gear", (c, o, False)))
        if tier != "quick":
            out.append(("built gear " + n, "sc_gear", (c, o, True)))
    for cone in (0, None):
        out.append(("core gear cone=%s" % cone, "sc_core", (cone,)))
    for k in C.KINDS:
        for h in C.TREAT:
            out.append(("curve %s %s" % (k, h), "sc_curve", (k, h)))
    return out
