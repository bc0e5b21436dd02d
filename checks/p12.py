"""A failed build leaves the gear as it was."""
from .common import *
from .facts import core_gear
from .p02 import show

EXPLAIN = ("exception-path analysis of every build: each call into the geometry kernel, the curve fit and each raise statement is a point "
           "where the build may end; at each such point that no handler intercepts, the state reachable from the gear is compared with "
           "the state before the build (handlers and finally blocks are executed on the exceptional path first)")
RULE = "atomic: at every point where a build can fail, no storage reachable from the gear has changed"
ASSUME = ["numpy operations and plain Python arithmetic do not fail", "every kernel and scipy call may fail"]


def watch(rep, X, roots, what):
    """compare the state at every uncaught failure"""
    before = {}
    for n, v in roots.items():
        before.update(flatten(v, n))
    seen = {}
    cnt = [0, 0]

    def hook(kind, where):
        cnt[0] += 1
        now = {}
        for n, v in roots.items():
            now.update(flatten(v, n))
        if all(p in before and (l is before[p] or l[1] is before[p][1]) for p, l in now.items()) and len(now) == len(before):
            cnt[1] += 1
            return
        ch, un = diff(before, now)
        if not ch and not un:
            cnt[1] += 1
        for p in ch:
            seen.setdefault((p, con(where)), (kind, where, show(before.get(p)), show(now.get(p))))
        if un and not ch:
            rep.unk("%s: %s when %s fails" % (what, un[0], kind))
    X.I.raise_hook = hook

    def done():
        X.I.raise_hook = None
        rep.ok += cnt[1]
        if cnt[1]:
            rep.samples.append("%s: %d failure points" % (what, cnt[0]))
        for (p, c), (kind, where, a, b) in seen.items():
            rep.bad("atomic", "%s leaves %s changed in %s" % (what, p.split("#")[0], c.split(" ")[0]),
                    "if %s at %s fails, it was %s and is now %s" % (kind, where, a, b))
        if not cnt[0]:
            rep.unk("%s: no failure point found" % what)
    return done


def sc_profile(rep, c, o):
    """generation of one profile (the part of a build that the other scenarios replace by an arbitrary profile)"""
    X = context()
    g = make(X, c, o)
    done = watch(rep, X, {"gear": g}, "%s profile generation" % c)
    X.guard(lambda: X.meth(X.get(g, "gearcore"), "curve_gen_at_z", scalar("z")))
    done()
    rep.engine(X)


def sc_build(rep, c, o, again):
    X = context()
    g = make(X, c, o, placed="Rack" not in c)
    if "Rack" not in c:
        profile_hook(X)
    kw = {}
    core = g.d.get("gearcore")
    if isinstance(core, Instance):
        three_slices(X, g)
        kw = dict(n_vert=scalar("n_vert", 0, "+", True))
    if again:
        X.guard(lambda: X.meth(g, "build_part", **kw))
    done = watch(rep, X, {"gear": g}, "%s.build_part" % c)
    X.guard(lambda: X.meth(g, "build_part", **kw))
    done()
    rep.engine(X)


def sc_wire(rep, c, o):
    X = context()
    g = make(X, c, o)
    profile_hook(X)
    for m, a in (("build_boundary_wire", [scalar("t")]), ("update_part", [])):
        if g.cls.lookup(m)[0] is None:
            continue
        if m == "update_part":
            X.guard(lambda: X.meth(g, "build_part", n_vert=scalar("n_vert", 0, "+", True)))
        done = watch(rep, X, {"gear": g}, "%s.%s" % (c, m))
        X.guard(lambda: X.meth(g, m, *a))
        done()
    rep.engine(X)


def scenarios(tier):
    out = []
    for n, c, o in configs(tier, GEARS + RACKS):
        if o.get("enable_undercut"):
            continue
        out.append(("first build " + n, "sc_build", (c, o, False)))
        out.append(("second build " + n, "sc_build", (c, o, True)))
        if "Rack" not in c:
            out.append(("wire " + n, "sc_wire", (c, o)))
            out.append(("profile " + n, "sc_profile", (c, o)))
    return out
