"""mesh_to changes nothing but the placement of the gear it is called on."""
from .common import *
from .facts import *

EXPLAIN = ("effect analysis of mesh_to of every class pair by abstract interpretation of the heap: everything reachable from both "
           "objects, the direction vector and the library constants is recorded before and after, including variables captured by "
           "stored functions; the difference must be confined to the placement of the receiver")
RULE = "effect: the set of storage locations whose value number changed is a subset of {centre, orientation, angle | position, orientation, offset} of the receiver"
ASSUME = ["calls into numpy, scipy and build123d modify only what their summaries in sa/ext.py state"]
ALLOWED = {"gear": ("transform.center", "transform.orientation", "transform.angle"), "rack": (".position", ".orientation", ".offset")}


def consts(X):
    m = X.mod("defs")
    return {k: v for k, v in m.d.items() if isinstance(v, (Arr, Num))}


def snapshot(X, roots):
    out = {}
    for n, v in roots.items():
        out.update(flatten(v, n))
    return out


def compare(rep, X, before, after, allowed, what):
    ch, un = diff(before, after)
    n = 0
    for p in ch:
        if any(p == q or p.startswith(q + ".") or p.startswith(q + "[") or p.startswith(q + "|") or p.startswith(q + "<") for q in allowed):
            continue
        rep.bad("effect", "%s changes %s" % (what, p), "was %s, becomes %s" % (show(before.get(p)), show(after.get(p))))
        n += 1
    for p in un:
        if not any(p.startswith(q) for q in allowed):
            rep.unk("%s: %s" % (what, p))
    rep.ok += max(0, len(before) - len(ch) - len(un))


def show(l):
    if l is None:
        return "absent"
    if l[0] == "num":
        return T.show(l[1].term)[:120] if l[1].const is None else repr(l[1].const)
    return repr(l[1])[:80]


def sc_mesh(rep, c1, o1, c2, o2):
    X = context()
    g, p, kw, go = mesh(X, c1, o1, c2, o2)
    roots = {"gear": g, "partner": p, "target_dir": kw.get("target_dir")}
    roots.update({"constant " + k: v for k, v in consts(X).items()})
    b = snapshot(X, roots)
    ok, _ = go()
    if not ok:
        rep.unk("%s always raises" % c1)
        return
    al = ["gear.gearcore.transform." + k for k in ("center", "orientation", "angle")]
    if "gearcore" not in g.d:
        al = ["gear.position", "gear.orientation", "gear.offset"]
    compare(rep, X, b, snapshot(X, roots), al, "%s.mesh_to" % c1)
    rep.engine(X)


def sc_core(rep, cone, ins):
    X = context()
    a, b = core_gear(X, "a.", cone, inside=ins[0]), core_gear(X, "b.", cone, inside=ins[1])
    d = direction_in()
    roots = {"gear": a, "partner": b, "target_dir": d}
    roots.update({"constant " + k: v for k, v in consts(X).items()})
    s = snapshot(X, roots)
    ok, _ = X.guard(lambda: X.meth(a, "mesh_to", b, target_dir=d))
    if ok:
        compare(rep, X, s, snapshot(X, roots), ["gear.transform." + k for k in ("center", "orientation", "angle")], "Gear.mesh_to")
    rep.engine(X)


def scenarios(tier):
    out = [("mesh " + m[0], "sc_mesh", m[1:]) for m in mesh_configs(tier)]
    for cone in (0, None):
        for ins in ((0, 0), (0, 1), (1, 0)):
            out.append(("mesh core gears cone=%s inside=%s" % (cone, ins), "sc_core", (cone, ins)))
    return out
