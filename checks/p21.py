"""Equivalent requests give equal gears and equal reports."""
from . import curves as C
from .common import *
from .p05 import features
from .p13 import cmp
from sa.flat import flatten

EXPLAIN = ("abstract interpretation of both constructors of every pair of equivalent requests with the same symbolic parameters; shape "
           "recipe at an arbitrary height, slices, placement, tooth data and reports of both gears are compared as terms; shorthand "
           "reports are compared with the long form they stand for")
RULE = ("class: a specialised class equals its general class with the corresponding arguments; teeth: a negative tooth count equals the "
        "positive count with inside teeth; helix: a helical gear or rack without helix equals the straight one; default: a default "
        "equals its documented value given explicitly; short: a shorthand equals the long form")
ASSUME = ["profile generation depends on the shape recipe, the tooth data and the height only (its inputs are compared)", "reports are compared where both sides are exact terms"]
FEATURES = ["limits.h_a", "limits.h_d", "limits.h_o", "pitch_angle", "cone.cone_angle", "cone.base_radius", "tooth_generator.pitch_radius",
            "tooth_generator.cone_angle", "tooth_generator.pitch_intersect_angle", "tooth_generator.pressure_angle",
            "tooth_generator.rc_in_coeff", "tooth_generator.rc_out_coeff", "tooth_generator.ref_limits", "tooth_generator#",
            "fillet.root_fillet", "fillet.tip_fillet", "fillet.tip_reduction", "transform.scale", "transform.center", "transform.angle",
            "transform.orientation", "slice.first", "slice.last", "placement.center", "placement.angle", "placement.orientation",
            "placement.scale", "teeth.num_teeth", "teeth.inside_teeth", "teeth.num_cutout_teeth"]
GEN = {"cone": 0, "inside_teeth": 0}


def scenarios(tier):
    out = []
    for u in (0, 1):
        out.append(("spur = generic, undercut=%d" % u, "sc_pair", ("class", ("SpurGear", {"enable_undercut": u}, {}),
                                                                  ("InvoluteGear", dict(GEN, enable_undercut=u), {"helix_angle": 0, "cone_angle": 0}))))
        out.append(("bevel = generic, undercut=%d" % u, "sc_pair", ("class", ("BevelGear", {"enable_undercut": u}, {}),
                                                                   ("InvoluteGear", {"inside_teeth": 0, "enable_undercut": u}, {}))))
        out.append(("helical without helix = spur, undercut=%d" % u, "sc_pair",
                    ("helix", ("HelicalGear", {"enable_undercut": u, "herringbone": 0}, {"helix_angle": 0}), ("SpurGear", {"enable_undercut": u}, {}))))
        out.append(("ring = generic with inside teeth, undercut=%d" % u, "sc_pair",
                    ("class", ("SpurRingGear", {"enable_undercut": u}, {"outside_ring_coefficient": "generic"}),
                     ("InvoluteGear", {"cone": 0, "inside_teeth": 1, "enable_undercut": u}, {"helix_angle": 0, "cone_angle": 0}))))
        out.append(("helical ring without helix = ring, undercut=%d" % u, "sc_pair",
                    ("helix", ("HelicalRingGear", {"enable_undercut": u, "herringbone": 0}, {"helix_angle": 0}),
                     ("SpurRingGear", {"enable_undercut": u}, {"outside_ring_coefficient": "generic"}))))
    for cone in (0, 1):
        for c in ("InvoluteGear", "CycloidGear"):
            for i in (0, 1):
                o = {"enable_undercut": 0}
                if cone == 0:
                    o["cone"] = 0
                out.append(("negative tooth count, %s cone=%d teeth=%d" % (c, cone, i), "sc_negative", (c, dict(o, inside_teeth=i), dict(o, inside_teeth=1 - i))))
    out.append(("helical rack without helix = rack", "sc_rack", ()))
    for n, c, o in configs(tier, [x for x in GEARS if x not in RACKS]):
        if tier == "quick" and o.get("enable_undercut"):
            continue
        out.append(("shorthands of %s" % n, "sc_short", (c, o)))
    out.append(("cone data", "sc_cone", ()))
    return out


def compare_(rep, X, rule, name, g, h, what):
    profile_hook(X)
    t = {n: None for n in FEATURES}
    a, b = features(X, g, t), features(X, h, t)
    for n in FEATURES:
        if n in a and n in b:
            agree(rep, rule, "%s: %s" % (name, n), a[n], b[n], what)
        elif n in a or n in b:
            rep.unk("%s only on one side" % n)
    r, s = reports(X, g), reports(X, h)
    for n in sorted(set(r) & set(s)):
        if n in ("inputparam",):
            continue
        agree(rep, rule, "%s: %s" % (name, n), r[n], s[n], what)


def sc_pair(rep, rule, one, two):
    X = context()
    def k(d):
        out = {a: D.num_const(v) for a, v in d.items() if v != "generic"}
        if "generic" in d.values():     # the ring thickness of the generic class
            q = make(X, "InvoluteGear", {"cone": 0, "inside_teeth": 1, "enable_undercut": 0}, helix_angle=D.num_const(0))
            out["outside_ring_coefficient"] = D.n_neg(X.get(X.call(X.get(q, "gearcore.shape_recipe"), scalar("z")), "limits.h_o"))
        return out
    ok, g = X.guard(lambda: make(X, one[0], one[1], **k(one[2])))
    ok2, h = X.guard(lambda: make(X, two[0], two[1], **k(two[2])))
    if not ok or not ok2:
        return rep.check(None if ok == ok2 else False, rule, one[0], "one request fails, the equivalent %s does not" % two[0], one[0])
    compare_(rep, X, rule, one[0], g, h, "compared with %s" % two[0])
    rep.engine(X)


def sc_negative(rep, c, neg, pos):
    X = context()
    n = X.params(X.cls(c))["number_of_teeth"]
    g = make(X, c, neg, number_of_teeth=D.n_neg(n))
    h = make(X, c, pos)
    compare_(rep, X, "teeth", c, g, h, "negative tooth count compared with the positive one and the other kind of teeth")
    rep.engine(X)


def sc_rack(rep):
    X = context()
    g = make(X, "HelicalRack", {"herringbone": 0}, placed=False, helix_angle=D.num_const(0))
    h = make(X, "InvoluteRack", {}, placed=False, beta_angle=D.num_const(0))
    a, b = flatten(g, ""), flatten(h, "")
    for n in sorted(set(a) & set(b)):
        if n == "#":
            continue
        r = leaf_same(a[n], b[n])
        rep.check(r, "helix", "HelicalRack%s" % n, "%s differs from %s of the straight rack" % (show_leaf(a[n]), show_leaf(b[n])), n)
    rep.engine(X)


def sc_short(rep, c, o):
    X = context()
    g = make(X, c, o)
    z = three_slices(X, g)
    profile_hook(X)
    get = lambda n: ask_(X, lambda: X.get(g, n))
    gen = {}

    def at_z(k, n):
        if k not in gen:
            gen[k] = ask_(X, lambda: X.meth(g, "radii_data_gen", z[k]))
        return None if gen[k] is None else ask_(X, lambda: X.get(gen[k], n))
    pairs = [("rp", get("pitch_radius")), ("p2z", ask_(X, lambda: X.meth(g, "proportion_to_z", scalar("ratio")))),
             ("addendum_radius", at_z(0, "r_a_curve.radius")), ("dedendum_radius", at_z(0, "r_d_curve.radius")),
             ("pitch_angle", get("gearcore.tooth_param.pitch_angle")), ("number_of_teeth", get("gearcore.tooth_param.num_teeth")),
             ("inside_teeth", get("gearcore.tooth_param.inside_teeth")), ("center", get("gearcore.transform.center")),
             ("angle", get("gearcore.transform.angle")), ("cone_angle", get("gearcore.cone.cone_angle")),
             ("radius_spherical", get("cone_data.R")), ("center_spherical", get("cone_data.center")),
             ("module", get("gearcore.transform.scale")),
             ("center_point_at_z", ask_(X, lambda: X.I.getattr(X.meth(g, "center_transform_at_z", scalar("z")), "center"))),
             ]
    from .p11 import AT
    from .oracle import E
    level = {0: E(z[0]), 0.5: (E(z[0]) + E(z[2])) * 0.5, 1: E(z[2])}
    for n, (m, l) in AT.items():
        if g.cls.lookup(n)[0] is None or g.cls.lookup(m)[0] is None:
            continue
        a, b = get(n), ask_(X, lambda: X.meth(g, m, level[l].n))
        if a is not None and b is not None:
            agree(rep, "short", "%s.%s" % (c, n), a, b, "compared with %s at that height" % m)
    for n, want in pairs:
        if g.cls.lookup(n)[0] is None:
            continue
        if n == "p2z":
            got = ask_(X, lambda: X.meth(g, n, scalar("ratio")))
        elif n == "center_point_at_z":
            got = ask_(X, lambda: X.meth(g, n, scalar("z")))
        else:
            got = get(n)
        if got is None or want is None:
            rep.unk("%s.%s" % (c, n))
            continue
        agree(rep, "short", "%s.%s" % (c, n), got, want, "compared with the long form")
    arr = get("radii_data_array")
    if isinstance(arr, ListV) and len(arr.items) == 3:
        for k in range(3):
            for n in ("r_a_curve", "r_d_curve", "r_p_curve", "r_o_curve"):
                x, y = ask_(X, lambda: X.get(arr.items[k], n + ".radius")), at_z(k, n + ".radius")
                if x is None or y is None:
                    rep.unk("radii_data_array")
                else:
                    agree(rep, "short", "%s.radii_data_array" % c, x, y, "entry %d, %s" % (k, n))
    elif isinstance(arr, ListV):
        rep.bad("short", "%s.radii_data_array" % c, "%d entries for 3 reference heights" % len(arr.items))
    elif arr is not None:
        rep.unk("%s.radii_data_array has another form" % c)
    rep.engine(X)


def sc_cone(rep):
    X = context()
    cl = X.name("ConicData")
    a = scalar("cone_angle", 0, "+")
    tr = X.get(make(X, "InvoluteGear", {"cone": 0, "inside_teeth": 0, "enable_undercut": 0}), "gearcore.transform")
    c = X.call(cl, base_radius=scalar("base_radius", 1, "+"), cone_angle=a, transform=tr)
    for x, y in (("R", "spherical_radius"), ("r", "base_radius")):
        p, q = ask_(X, lambda: X.get(c, x)), ask_(X, lambda: X.get(c, y))
        if p is None or q is None:
            rep.unk("ConicData.%s" % x)
        else:
            agree(rep, "short", "ConicData.%s" % x, p, q, "compared with %s" % y)
    p = ask_(X, lambda: X.get(c, "gamma"))
    if p is not None:
        agree(rep, "short", "ConicData.gamma", p, D.n_div(a, D.num_const(2)), "compared with half the cone angle")
    rep.engine(X)
