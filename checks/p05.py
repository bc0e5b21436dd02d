"""Each constructor parameter controls its documented feature, and only that."""
from .common import *
from .oracle import E, eff, inside

EXPLAIN = ("parameter-flow analysis: each constructor parameter of each class is replaced by an independent input in turn and the shape "
           "recipe (at an arbitrary height), slices, placement and tooth data of both gears are compared by value number; which features "
           "differ is compared with the documented influence table. Data-flow sets of the generated profile segments and of the built "
           "part decide that every parameter still reaches the geometry; calls that pair a fillet radius with a reference circle are "
           "checked for the right circle")
RULE = ("drop: a documented feature does not change with its parameter; leak: a feature changes with a parameter it is not documented to "
        "depend on; reach: the segments listed for a parameter (and the built part) have it in their data-flow set; role: tip fillet "
        "works on the addendum circle, root fillet on the dedendum circle")
ASSUME = ["data flow through numpy, scipy and build123d calls: every argument may influence the result"]

ALL = "*"


def table(c, o):
    """feature -> (parameters that must influence it, further parameters that may)"""
    cyc = c == "CycloidGear"
    hel = c in ("HelicalGear", "HelicalRingGear")
    H = {"helix_angle"} if hel else set()
    ring = c == "SpurRingGear" or c == "HelicalRingGear"
    size = {"height", "module", "z_anchor"}
    t = {
        "limits.h_a": ({"addendum_coefficient"} | (set() if cyc else {"profile_shift"}) | H, set()),
        "limits.h_d": ({"dedendum_coefficient"} | (set() if cyc else {"profile_shift"}) | H, set()),
        "limits.h_o": ({"inside_teeth", "outside_ring_coefficient"}, {"enable_undercut"}),
        "pitch_angle": ({"number_of_teeth"}, set()),
        "cone.cone_angle": ({"cone_angle"}, set()),
        "cone.base_radius": ({"number_of_teeth"}, set()),
        "tooth_generator.pitch_radius": ({"number_of_teeth"}, set()),
        "tooth_generator.cone_angle": ({"cone_angle"}, set()),
        "tooth_generator.pitch_intersect_angle": (({"number_of_teeth", "backlash", "crowning"} | size | H
                                                   | (set() if cyc else {"profile_shift", "pressure_angle"})), set()),
        "tooth_generator#": ({"enable_undercut"}, set()),
        "fillet.root_fillet": ({"root_fillet"}, {"enable_undercut"}),
        "fillet.tip_fillet": ({"tip_fillet"}, set()),
        "fillet.tip_reduction": ({"tip_truncation"}, set()),
        "transform.scale": ({"number_of_teeth", "cone_angle"} if is_cone(c, o) else set(), set()),
        "transform.center": ({"cone_angle"}, set()),
        "transform.angle": (({"number_of_teeth", "helix_angle"} if "Spur" not in c else set()) | (size if o.get("herringbone") else set()), set()),
        "slice.first": (size | H, set()),
        "slice.last": (size | H, set()),
        "placement.center": ({"center"}, set()),
        "placement.angle": ({"angle"}, set()),
        "placement.orientation": (set(), set()),
        "placement.scale": ({"module"} | H, set()),
        "teeth.num_teeth": ({"number_of_teeth"}, set()),
        "teeth.inside_teeth": ({"inside_teeth"}, set()),
    }
    if hel:
        t["transform.angle"][0].add("herringbone")
    if cyc:
        t["tooth_generator.rc_in_coeff"] = ({"inside_cycloid_coefficient"}, set())
        t["tooth_generator.rc_out_coeff"] = ({"outside_cycloid_coefficient"}, set())
        t["tooth_generator#"] = (set(), set())
    else:
        t["tooth_generator.pressure_angle"] = ({"pressure_angle"} | H, set())
    return t


def features(X, g, t):
    """name -> value of the features in the table"""
    core = X.get(g, "gearcore")
    rec = X.call(X.get(core, "shape_recipe"), scalar("z"))
    out = {}
    zv = X.get(core, "z_vals")
    for n in t:
        head, _, rest = n.partition(".")
        if head == "slice":
            v = ask_(X, lambda: M.getitem(X.I, zv, D.num_const(0 if rest == "first" else -1)))
        elif head == "placement":
            v = ask_(X, lambda: X.get(core, "transform." + rest))
        elif head == "teeth":
            v = ask_(X, lambda: X.get(core, "tooth_param." + rest))
        elif n.endswith("#"):
            v = Const(X.get(rec, n[:-1]).cls.name)
        else:
            v = ask_(X, lambda: X.get(rec, n))
        if v is not None:
            out[n] = v
    return out


def other(X, cls, p, o):
    """an argument independent of the original one"""
    if p in BOOLS:
        return T_(not o.get(p, 0))
    d = X.params(X.cls(cls), "other.")
    return d.get(p)


def sc_flow(rep, c, o):
    X = context()
    t = table(c, o)
    params = X.sig(X.cls(c))
    base = features(X, make(X, c, o, placed=False), t)
    cov = 0
    for p in params:
        if p == "cone_angle" and o.get("cone", 1) == 0:
            continue
        v = other(X, c, p, o)
        if v is None:
            rep.unk("parameter %s" % p)
            continue
        ok, g = X.guard(lambda: make(X, c, o, placed=False, **{p: v}))
        if not ok:
            rep.unk("parameter %s: constructor fails" % p)
            continue
        f = features(X, g, t)
        for n, (must, may) in t.items():
            if n not in f or n not in base:
                continue
            if p in may:
                continue
            r = leaf_same(leaf(base[n]), leaf(f[n]))
            if p in must:
                rep.check(None if r is None else not r, "drop", "%s(%s) -> %s" % (c, p, n), "%s does not follow %s: it stays %s"
                          % (n, p, show_leaf(leaf(base[n]))), "%s(%s) changes %s" % (c, p, n))
            else:
                rep.check(r, "leak", "%s(%s) -> %s" % (c, p, n), "%s changes with %s: %s becomes %s"
                          % (n, p, show_leaf(leaf(base[n])), show_leaf(leaf(f[n]))))
            cov += 1
    if not cov:
        rep.unk("no feature of %s could be read" % c)
    rep.engine(X)


def leaf(v):
    if isinstance(v, Arr):
        return ("num", v.n)
    if isinstance(v, Num):
        return ("num", v)
    if isinstance(v, Const):
        return ("const", v.v)
    return ("ext", v)


#: profile segment -> parameters whose data must reach it
SEG = {
    "ra_curve": {"number_of_teeth", "addendum_coefficient", "profile_shift", "tip_fillet", "tip_truncation", "backlash", "pressure_angle"},
    "rd_curve": {"number_of_teeth", "dedendum_coefficient", "profile_shift", "root_fillet", "backlash", "pressure_angle"},
    "ro_curve": {"number_of_teeth", "outside_ring_coefficient"},
    "tooth_curve": {"number_of_teeth", "addendum_coefficient", "dedendum_coefficient", "profile_shift", "tip_fillet", "root_fillet",
                    "tip_truncation", "backlash", "crowning", "pressure_angle", "cone_angle", "inside_cycloid_coefficient",
                    "outside_cycloid_coefficient", "height", "z_anchor"},
    "pitch_angle": {"number_of_teeth"},
    "transform": {"helix_angle", "number_of_teeth"},
}


def sc_profile(rep, c, o):
    """data flow into the profile segments"""
    X = context()
    g = make(X, c, o, placed=False)
    params = set(X.sig(g.cls))
    lim = {}
    log = fillet_calls(X, lim)
    core = X.get(g, "gearcore")
    rec = ask_(X, lambda: X.call(X.get(core, "shape_recipe"), scalar("z")))
    if rec is not None:
        lim.update(a=ask_(X, lambda: X.get(rec, "limits.h_a")), d=ask_(X, lambda: X.get(rec, "limits.h_d")))
    ok, pr = X.guard(lambda: X.meth(core, "curve_gen_at_z", scalar("z")))
    if not ok or not isinstance(pr, Instance):
        rep.unk("%s profile generation" % c)
        return
    for seg, ps in SEG.items():
        v = pr.d.get(seg)
        if v is None:
            rep.unk("segment %s" % seg)
            continue
        d = deps_of(v, 12)
        for p in sorted(ps & params):
            if p == "cone_angle" and o.get("cone", 1) == 0:
                continue
            rep.check(p in d, "reach", "%s(%s) -> profile.%s" % (c, p, seg), "%s does not reach the %s of the profile" % (p, seg))
    for what, radius, circles, where in log:
        for dep in circles:
            want = "addendum_coefficient" if what == "tip_fillet" else "dedendum_coefficient"
            wrong = "dedendum_coefficient" if what == "tip_fillet" else "addendum_coefficient"
            if want not in dep and wrong in dep:
                rep.bad("role", "%s on the wrong circle in %s" % (what, con(where)), "%s is applied to the circle defined by %s at %s" % (what, wrong, where))
            elif want in dep:
                rep.good("%s on the %s circle" % (what, want.split("_")[0]))
    rep.engine(X)


def fillet_calls(X, lim):
    """calls that receive exactly the tip or the root fillet radius together with a circle"""
    log = []
    keys = {scalar(k).term: k for k in ("tip_fillet", "root_fillet")}

    def hook(f, env):
        args = [env.d.get(a.arg) for a in f.node.args.args]
        for v in args:
            if isinstance(v, Num) and v.term in keys:
                cs = []
                for x in args:
                    if isinstance(x, Instance) and "_radius" in x.d and isinstance(x.d["_radius"], Num):
                        cs.append(x.d["_radius"].deps)
                if cs:
                    log.append((keys[v.term], v, cs, X.I.where()))
        return None
    X.I.call_hook = hook
    return log


#: what reaches the built part of any gear (profiles stand for everything checked above)
def sc_part(rep, c, o):
    X = context()
    g = make(X, c, o)
    ok, part = build(X, g)
    if not ok:
        rep.unk("%s.build_part" % c)
        return
    d = deps_of(part, 12)
    want = {"<profile>", "number_of_teeth", "module", "center", "orientation", "angle", "z_anchor", "height", "helix_angle", "cone_angle"}
    if "Helical" in c:      # slices were replaced by arbitrary ones
        want -= {"z_anchor", "height"}
        want |= {"zv0", "zv1", "zv2"}
    ps = set(X.sig(g.cls)) | {"<profile>", "orientation", "zv0", "zv1", "zv2"}
    for p in sorted(want & ps):
        if p == "cone_angle" and o.get("cone", 1) == 0:
            continue
        rep.check(p in d, "reach", "%s(%s) -> part" % (c, p), "%s does not reach the built part" % p)
    rep.engine(X)


RACK_PART = {"number_of_teeth", "height", "pressure_angle", "position", "orientation", "offset", "module", "root_fillet", "tip_fillet",
             "addendum_coefficient", "dedendum_coefficient", "beta_angle", "helix_angle", "backlash"}


def sc_rack(rep, c, o):
    X = context()
    g = make(X, c, o, placed=False)
    ok, part = X.guard(lambda: X.meth(g, "build_part"))
    if not ok:
        rep.unk("%s.build_part" % c)
        return
    d = deps_of(part, 12)
    for p in sorted(RACK_PART & set(X.sig(g.cls))):
        rep.check(p in d, "reach", "%s(%s) -> part" % (c, p), "%s does not reach the built part" % p)
    raw = g.d.get("part")
    if raw is not None:
        d = deps_of(raw, 12)
        for p in ("position", "orientation", "offset"):
            rep.check(p not in d, "leak", "%s(%s) -> untransformed part" % (c, p), "%s influences the untransformed part" % p)
    # stored parameters
    for p in ("number_of_teeth", "height", "offset", "root_fillet", "tip_fillet", "backlash"):
        v = g.d.get(p)
        if isinstance(v, Num) and v.term is not None:
            rep.check(labels(v.term) == {p}, "leak" if p in labels(v.term) else "drop", "%s.%s" % (c, p), "%s holds %s" % (p, show_leaf(("num", v))))
    rep.engine(X)


def scenarios(tier):
    out = []
    for n, c, o in configs(tier):
        out.append(("flow " + n, "sc_flow", (c, o)))
        out.append(("profile " + n, "sc_profile", (c, o)))
        out.append(("part " + n, "sc_part", (c, o)))
    for n, c, o in configs(tier, RACKS):
        out.append(("rack " + n, "sc_rack", (c, o)))
    return out
