"""Placement storage is never shared between objects or with constants."""
from .common import *
from .facts import core_gear
from .p02 import consts

EXPLAIN = ("alias analysis: for every class the arrays that hold the position and orientation are followed to the storage they own "
           "after each way to create or place an object (constructor with and without arguments, the same caller array used twice, "
           "assignment of another object's centre, meshing, copying, resetting); the storage must be disjoint from that of the other "
           "object, of the caller's arrays that went into two objects, and of the library constants")
RULE = "alias: the sets of array storage (allocation sites, views included) of two placements, and of a placement and a constant, do not intersect"
ASSUME = ["numpy functions return views only where their summaries in sa/ext.py say so"]


def places(X, g):
    core = g.d.get("gearcore")
    if isinstance(core, Instance):
        t = X.I.getattr(core, "transform")
        return {"gearcore.transform." + k: X.I.getattr(t, k) for k in ("center", "orientation")}
    if "transform" in g.d:
        t = g.d["transform"]
        return {"transform." + k: X.I.getattr(t, k) for k in ("center", "orientation")}
    return {k: X.I.getattr(g, k) for k in ("position", "orientation")}


def store(v):
    if isinstance(v, Arr):
        return {r.uid for r in v.roots()}
    if isinstance(v, Union):
        return set().union(*[store(x) for x in v.alts])
    return set()


def tstore(X, g):
    core = g.d.get("gearcore", g)
    t = core.d.get("transform") if isinstance(core, Instance) else None
    return {t.uid} if isinstance(t, Instance) else set()


def own(rep, X, what, *gs, extra=()):
    """the placements of all gears are disjoint from each other, from the constants and from the extra arrays"""
    ks = consts(X)
    for i, g in enumerate(gs):
        for n, v in places(X, g).items():
            s = store(v)
            for k, c in ks.items():
                rep.check(not (s & store(c)), "alias", "%s: %s and constant %s" % (what, n, k), "the placement of the object is the constant's own storage")
            for en, e in extra:
                rep.check(not (s & store(e)), "alias", "%s: %s and %s" % (what, n, en), "both use the same storage")
            for h in gs[i + 1:]:
                for m, w in places(X, h).items():
                    rep.check(not (s & store(w)), "alias", "%s: %s of both objects" % (what, n if n == m else n + " and " + m),
                              "moving one object in place moves the other")
                rep.check(not (tstore(X, g) & tstore(X, h)), "alias", "%s: transform of both objects" % what, "both objects use the same transform object")


def ctor(X, c, o, pre, bare=False, **over):
    cl = X.cls(c)
    a = X.params(cl, pre, cone=o.get("cone"))
    for k, v in o.items():
        if k in X.sig(cl):
            a[k] = T_(v) if k != "cone" else v
    if bare:
        for k in ("center", "position", "orientation"):
            a.pop(k, None)
    a.update({k: v for k, v in over.items() if k in X.sig(cl)})
    return X.call(cl, **a)


def sc_create(rep, c, o):
    X = context()
    g, h = ctor(X, c, o, "a.", True), ctor(X, c, o, "b.", True)
    own(rep, X, "%s() with default placement" % c, g, h)
    p, q = point("p"), orient("q")
    g, h = ctor(X, c, o, "a.", center=p, position=p, orientation=q), ctor(X, c, o, "b.", center=p, position=p, orientation=q)
    own(rep, X, "%s() with a caller's array used twice" % c, g, h)
    o0 = X.mod("defs").d.get("ORIGIN")
    if o0 is not None:
        g, h = ctor(X, c, o, "a.", center=o0, position=o0), ctor(X, c, o, "b.", center=o0, position=o0)
        own(rep, X, "%s() at ORIGIN" % c, g, h)
    if "gearcore" in g.d:
        X.I.setattr(g, "center", X.I.getattr(h, "center"))
        own(rep, X, "%s.center = other.center" % c, g, h)
        for n in ("RIGHT", "ORIGIN"):
            X.I.setattr(g, "center", X.mod("defs").d[n])
            own(rep, X, "%s.center = %s" % (c, n), g, h)
        X.I.setattr(g, "center", p)
        X.I.setattr(h, "center", p)
        own(rep, X, "%s.center = p for two objects" % c, g, h)
        if g.cls.lookup("reset_location")[0] is not None:
            for x in (g, h):
                X.meth(x, "reset_location")
            own(rep, X, "%s.reset_location" % c, g, h)
    if g.cls.lookup("copy")[0] is not None:
        ok, k = X.guard(lambda: X.meth(g, "copy"))
        if ok:
            own(rep, X, "%s.copy" % c, g, k)
            X.guard(lambda: X.meth(k, "reset_location") if k.cls.lookup("reset_location")[0] is not None else None)
            own(rep, X, "%s.copy" % c, g, k)
    rep.engine(X)


def sc_mesh(rep, c1, o1, c2, o2):
    X = context()
    g, p, kw, go = mesh(X, c1, o1, c2, o2)
    for i in (1, 2):
        ok, _ = go()
        if not ok:
            rep.unk("%s always raises" % c1)
            return
        own(rep, X, "%s.mesh_to" % c1, g, p, extra=[("target_dir", kw["target_dir"])] if "target_dir" in kw else [])
    # along a library constant
    X = context()
    g, p, kw, go = mesh(X, c1, o1, c2, o2, direction=None)
    r = X.mod("defs").d.get("UP")
    if "target_dir" in kw and r is not None:
        ok, _ = X.guard(lambda: X.meth(g, "mesh_to", p, **dict(kw, target_dir=r)))
        if ok:
            own(rep, X, "%s.mesh_to(UP)" % c1, g, p)
    rep.engine(X)


def sc_core(rep, cone):
    X = context()
    G = X.cls("Gear", "gggears_core")
    g, h = X.call(G), X.call(G)
    own(rep, X, "Gear()", g, h)
    t1, t2 = X.call(X.name("GearTransform")), X.call(X.name("GearTransform"))
    g, h = X.call(G, transform=t1), X.call(G, transform=t2)
    own(rep, X, "Gear() with default transforms", g, h)
    if g.cls.lookup("center")[0] is not None:
        p = point("p")
        X.I.setattr(g, "center", p)
        X.I.setattr(h, "center", p)
        own(rep, X, "Gear.center = p for two objects", g, h)
        X.I.setattr(g, "center", X.I.getattr(h, "center"))
        own(rep, X, "Gear.center = other.center", g, h)
    for ins in ((0, 0), (0, 1), (1, 0)):
        X = context()
        a, b = core_gear(X, "a.", cone, inside=ins[0]), core_gear(X, "b.", cone, inside=ins[1])
        d = direction_in()
        ok, _ = X.guard(lambda: X.meth(a, "mesh_to", b, target_dir=d))
        if ok:
            own(rep, X, "Gear.mesh_to", a, b, extra=[("target_dir", d)])
        ok, k = X.guard(lambda: X.meth(a, "copy"))
        if ok:
            own(rep, X, "Gear.copy", a, k)
    rep.engine(X)


def sc_transform(rep):
    """default transforms and products never hand out the constants' storage"""
    X = context()
    ks = consts(X)
    for cn in ("TransformData", "Transform", "GearTransformData", "GearTransform"):
        cl = X.name(cn)
        a, b = X.call(cl), X.call(cl)
        cases = [("%s()" % cn, a)]
        for n, th in (("invert", lambda: X.meth(a, "invert")), ("product", lambda: X.meth(a, "__mul__", b))):
            ok, v = X.guard(th)
            if ok and isinstance(v, Instance):
                cases.append(("%s %s" % (cn, n), v))
        for w, t in cases:
            for k in ("center", "orientation"):
                s = store(X.I.getattr(t, k))
                for kn, c in ks.items():
                    rep.check(not (s & store(c)), "alias", "%s: %s and constant %s" % (w, k, kn), "storage of a constant is handed out")
                if t is not b:
                    rep.check(not (s & store(X.I.getattr(b, k))), "alias", "%s: %s of another transform" % (w, k), "storage is shared")
    rep.engine(X)


def scenarios(tier):
    out = [("create " + n, "sc_create", (c, o)) for n, c, o in configs(tier) + configs(tier, RACKS)]
    out += [("mesh " + m[0], "sc_mesh", m[1:]) for m in mesh_configs(tier)]
    out += [("core gear cone=%s" % c, "sc_core", (c,)) for c in (0, None)]
    out.append(("transforms", "sc_transform", ()))
    return out
