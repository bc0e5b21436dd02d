"""Nominal dimensions follow the standard gear relations."""
from .common import *
from .facts import core_gear
from . import oracle as O
from .oracle import E, same, eff, inside, sin, cos, tan, PI

EXPLAIN = ("every nominal report and every entry of the shape recipe (evaluated at an arbitrary height) is computed symbolically for "
           "arbitrary parameters and its value number is compared with the defining gear relation written down independently in "
           "checks/p22.py; equality of value numbers is decided by normal form, inequality by two independent interpretations")
RULE = ("relation: report = reference formula for all parameter values, e.g. pitch diameter = module*teeth, pitch angle = 2*pi/teeth, "
        "depths = coefficient -/+ shift, tooth half angle = pitch/4 + shift*tan(alpha)/r - backlash/r - crowning, base radius = "
        "r*cos(alpha), twist = z*tan(beta)/r, scale = 1 - z*sin(gamma)/r, helical transverse conversion, nominal mesh distances")
ASSUME = ["|helix angle| and |pressure angle| < 90 degrees", "module, height and tooth count are positive"]


def get(X, g, path):
    ok, v = X.guard(lambda: X.get(g, path))
    return v if ok else None


def herring(z, mid):
    return mid - O.abs_(mid - z)


def sc_gear(rep, c, o):
    X = context()
    g = make(X, c, o)
    p = eff(c, o)
    N, rp, m = p["N"], p["rp"], p["m"]

    def want(n, w):
        x = get(X, g, n)
        if x is None:
            rep.unk("%s.%s" % (c, n))
        else:
            same(rep, "relation", "%s.%s" % (c, n), x, w)
    want("number_of_teeth", N)
    want("module", m)
    want("pitch_radius", N * m / 2)
    want("rp", N * m / 2)
    want("pitch_angle", 2 * PI / N)
    want("cone_angle", p["gamma"] * 2)
    want("angle", p["angle"])
    want("center", p["center"])
    if c != "CycloidGear":
        want("gamma", p["gamma"])
        want("beta", p["beta"])
        if not is_cone(c, o):
            want("r_base", N * m / 2 * cos(p["alpha"]))
    if is_cone(c, o):
        R = N * m / 2 / sin(p["gamma"])
        want("radius_spherical", R)
        want("center_spherical", p["center"] + (p["o"] @ O.e(2)) * (R * cos(p["gamma"])))
    want("z_height", p["H"] * cos(p["gamma"]))
    # the recipe at an arbitrary height
    z = scalar("z")
    Z = E(z)
    core = X.get(g, "gearcore")
    ok, rec = X.guard(lambda: X.call(X.get(core, "shape_recipe"), z))
    if not ok:
        rep.unk("%s shape recipe" % c)
        return
    ins = inside(c, o)

    def rw(n, w):
        x = get(X, rec, n)
        if x is None:
            rep.unk("%s recipe %s" % (c, n))
        else:
            same(rep, "relation", "%s recipe %s" % (c, n), x, w)
    rw("limits.h_a", p["add"] + p["shift"])
    rw("limits.h_d", p["ded"] - p["shift"])
    rw("pitch_angle", 2 * PI / N)
    rw("cone.cone_angle", p["gamma"] * 2)
    rw("cone.base_radius", rp)
    rw("tooth_generator.pitch_radius", rp)
    zh = p["H"] / m
    zm, zM = 0 - zh * p["anchor"], zh * (1 - p["anchor"])
    rel = Z / zh + p["anchor"]
    ta = 2 * PI / N / 4 - p["backlash"] / rp
    if c != "CycloidGear":
        ta = ta + p["shift"] * tan(p["alpha"]) / rp
        rw("tooth_generator.pressure_angle", p["alpha"])
    else:
        rw("tooth_generator.rc_in_coeff", O.s("inside_cycloid_coefficient"))
        rw("tooth_generator.rc_out_coeff", O.s("outside_cycloid_coefficient"))
    rw("tooth_generator.pitch_intersect_angle", ta - (rel * 2 - 1) * (rel * 2 - 1) * p["crowning"] / rp * 0.001)
    rw("tooth_generator.cone_angle", p["gamma"] * 2)
    rw("fillet.root_fillet", p["root"])
    rw("fillet.tip_fillet", p["tip"])
    rw("fillet.tip_reduction", p["trunc"])
    rw("transform.scale", 1 - Z * sin(p["gamma"]) / rp)
    rw("transform.center", O.e(2) * (Z * cos(p["gamma"])))
    zz = Z
    if o.get("herringbone"):
        zz = herring(Z, (zm + zM) / 2)
    rw("transform.angle", zz * tan(p["beta"]) / rp)
    h = get(X, rec, "limits.h_o")
    if isinstance(h, Num) and h.const is not None:
        rep.check((h.const < 0) == ins, "relation", "%s recipe limits.h_o" % c, "the ring lies on the wrong side of the teeth (h_o = %s)" % h.const)
    # slices
    zv = get(X, core, "z_vals")
    if isinstance(zv, Arr) and zv.n.elems:
        el = zv.n.elems
        same(rep, "relation", "%s first slice" % c, el[0], zm)
        same(rep, "relation", "%s last slice" % c, el[-1], zM)
    tr = X.get(core, "transform")
    same(rep, "relation", "%s transform scale" % c, X.get(tr, "scale"), m)
    same(rep, "relation", "%s core module" % c, X.get(core, "module"), m)
    tp = X.get(core, "tooth_param")
    same(rep, "relation", "%s tooth_param.num_teeth" % c, X.get(tp, "num_teeth"), N)
    same(rep, "relation", "%s tooth_param.num_teeth_act" % c, X.get(tp, "num_teeth_act"), N)
    rep.engine(X)


def sc_circles(rep):
    """reference circles of a cylindrical tooth"""
    X = context()
    lim = X.call(X.name("ToothLimitParam"), h_a=scalar("h_a"), h_d=scalar("h_d"), h_o=scalar("h_o"))
    gt = X.call(X.name("GearPolarTransform", "gggears_core"), cone_angle=D.num_const(0), base_radius=scalar("rp", 0, "+"))
    ok, c = X.guard(lambda: X.call(X.name("generate_reference_circles", "gggears_core"), scalar("rp", 0, "+"), lim, gt))
    if ok:
        rp = O.s("rp")
        for n, w in (("r_a", rp + O.s("h_a")), ("r_d", rp - O.s("h_d")), ("r_p", rp)):
            ok, v = X.guard(lambda: X.I.getattr(c, n))
            if ok:
                same(rep, "relation", "generate_reference_circles.%s" % n, D.n_fn("abs", D_(v)), O.abs_(w))
    ok, c = X.guard(lambda: X.call(X.name("generate_reference_lines", "gggears_core"), lim))
    if ok:
        for n, w in (("a_line", O.s("h_a")), ("d_line", -O.s("h_d")), ("o_line", -O.s("h_o")), ("p_line", E(D.num_const(0)))):
            ok, l = X.guard(lambda: X.I.getattr(c, n))
            if ok:
                for q in ("p0", "p1"):
                    pt = X.I.getattr(l, q)
                    x = E(D.n_matmul(Num(None, (3,), None, D.NODEPS, 0, "S", T.ZERO, D.N1, T.E3[0]), pt.n))
                    same(rep, "relation", "generate_reference_lines.%s.%s" % (n, q), x, w)
    rep.engine(X)


def D_(v):
    return v.n if isinstance(v, (Arr, ExtObj)) else v


def sc_math(rep):
    X = context()
    F = lambda n: X.name(n, "gearmath")
    r1, r2, m = [scalar(n, 1, "+") for n in ("r1", "r2", "m")]
    s1, s2 = scalar("x1"), scalar("x2")
    R1, R2, S1, S2, M_ = [E(x) for x in (r1, r2, s1, s2, m)]
    for i1 in (0, 1):
        for i2 in (0, 1):
            if i1 and i2:
                continue
            ok, v = X.guard(lambda: X.call(F("calc_nominal_mesh_distance"), r1, r2, s1, s2, m, inside_ring_1=T_(i1), inside_ring_2=T_(i2)))
            if ok:
                a1, a2 = (-1 if i2 else 1), (-1 if i1 else 1)
                same(rep, "relation", "calc_nominal_mesh_distance", v, (R1 + S1 * M_) * a1 + (R2 + S2 * M_) * a2)
    n1, n2, ax = scalar("n1", 0, "+", True), scalar("n2", 0, "+", True), scalar("axis_angle", 0, "+")
    ok, v = X.guard(lambda: X.call(F("cone_angle_from_teeth"), n1, n2, ax))
    if ok and isinstance(v, Arr) and v.n.elems and len(v.n.elems) == 2:
        a, b = [E(x) / 2 for x in v.n.elems]
        same(rep, "relation", "cone_angle_from_teeth: sum", a + b, E(ax), "half cone angles add up to the axis angle")
        same(rep, "relation", "cone_angle_from_teeth: ratio", sin(a) * E(n2), sin(b) * E(n1), "sin(gamma1)/sin(gamma2) = n1/n2")
        ok, v = X.guard(lambda: X.call(F("cone_angle_from_teeth"), n1, n2))
        if ok and isinstance(v, Arr) and v.n.elems and len(v.n.elems) == 2:
            a, b = [E(x) / 2 for x in v.n.elems]
            same(rep, "relation", "cone_angle_from_teeth: default sum", a + b, E(D.num_const(PI / 2)))
            same(rep, "relation", "cone_angle_from_teeth: default ratio", sin(a) * E(n2), sin(b) * E(n1))
    # conic data
    cd = X.call(X.name("ConicData"), cone_angle=scalar("cone_angle", 0, "+"), base_radius=scalar("base_radius", 1, "+"))
    g, r = O.s("cone_angle") / 2, O.s("base_radius")
    for n, w in (("gamma", g), ("height", r / tan(g)), ("spherical_radius", r / sin(g)), ("R", r / sin(g)), ("r", r)):
        ok, v = X.guard(lambda: X.I.getattr(cd, n))
        if ok:
            same(rep, "relation", "ConicData.%s" % n, E(D.n_fn("abs", D_(v))) if n in ("spherical_radius", "R") else v, O.abs_(w) if n in ("spherical_radius", "R") else w)
    tp = X.call(X.name("GearToothParam"), num_teeth=scalar("n", 0, "+", True), num_cutout_teeth=scalar("cut", 0, "+", True))
    same(rep, "relation", "GearToothParam.pitch_angle", X.I.getattr(tp, "pitch_angle"), 2 * PI / O.s("n"))
    same(rep, "relation", "GearToothParam.num_teeth_act", X.I.getattr(tp, "num_teeth_act"), O.s("n") - O.s("cut"))
    # involute tooth: base circle
    for n in ("InvoluteTooth", "InvoluteUndercutTooth"):
        ok, t = X.guard(lambda: X.call(X.name(n, "gearteeth"), pressure_angle=scalar("alpha"), pitch_radius=scalar("rp", 0, "+"),
                                       pitch_intersect_angle=scalar("pia_angle"), cone_angle=D.num_const(0)))
        if ok:
            ok, v = X.guard(lambda: X.meth(t, "get_base_radius"))
            if ok:
                same(rep, "relation", "%s.get_base_radius" % n, v, O.s("rp") * cos(O.s("alpha")))
            ok, v = X.guard(lambda: X.meth(t, "get_base_angle"))
            if ok and D_(v).term is not None:
                # angle between the pitch point and the start of the involute: inv(alpha) = tan(alpha) - alpha
                same(rep, "relation", "%s.get_base_angle" % n, v, tan(O.s("alpha")) - O.s("alpha") - O.s("pia_angle"))
    rep.engine(X)


def sc_mesh(rep, c1, o1, c2, o2):
    """nominal centre distance of meshed cylindrical cycloid gears, placement of racks"""
    X = context()
    g, p, kw, go = mesh(X, c1, o1, c2, o2, direction=None)
    ok, _ = go()
    if not ok:
        return
    pl = placement(X, g)
    if "Rack" in c1:
        q = eff(c2, o2, "b.")
        d = O.v("target_dir")
        zax = q["o"] @ O.e(2)
        dist = q["N"] * q["m"] / 2 + q["shift"] * q["m"]
        proj = d - zax * (zax @ d)
        w = q["center"] + proj * (dist / E(D.n_norm(proj.n)))
        same(rep, "relation", "%s.mesh_to: position" % c1, pl["position"], w)
    elif c1 == "CycloidGear" and not is_cone(c1, o1):
        a, b = eff(c1, o1, "a."), eff(c2, o2, "b.")
        d = O.v("target_dir")
        r1, r2 = a["N"] * a["m"] / 2, b["N"] * b["m"] / 2
        ring = inside(c1, o1) or inside(c2, o2)
        dist = O.abs_(r1 - r2) if ring else r1 + r2
        same(rep, "relation", "%s.mesh_to: centre" % c1, pl["center"], b["center"] + d * (dist / E(D.n_norm(d.n))))
    rep.engine(X)


def sc_adapt(rep, i1, i2):
    """cycloid radii after adaptation: equal rolling circles on both sides of the common pitch circle"""
    X = context()
    g, p = [make(X, "CycloidGear", {"cone": 0, "inside_teeth": i}, w) for i, w in ((i1, "a."), (i2, "b."))]
    X.meth(g, "adapt_cycloid_radii", p)
    a, b = eff("CycloidGear", {}, "a."), eff("CycloidGear", {}, "b.")
    co = lambda x, n: E(X.get(x, n + "_cycloid_coefficient"))
    keep = lambda w, n: O.s(w + n + "_cycloid_coefficient")
    w = "CycloidGear.adapt_cycloid_radii"
    for n in ("inside", "outside"):
        m = n if i1 or i2 else {"inside": "outside", "outside": "inside"}[n]
        same(rep, "relation", w, co(g, n) * a["N"], co(p, m) * b["N"], "rolling circle of the %s of one gear and the %s of the other" % (n, m))
    if i1 == i2:
        for x, pre in ((g, "a."), (p, "b.")):
            same(rep, "relation", w, co(x, "inside"), keep(pre, "inside"), "inside radii stay")
    else:
        pin, ring = ((p, "b."), (g, "a.")) if i1 else ((g, "a."), (p, "b."))
        same(rep, "relation", w, co(pin[0], "inside"), keep(pin[1], "inside"), "the inside radius of the pinion stays")
        same(rep, "relation", w, co(ring[0], "outside"), keep(ring[1], "outside"), "the outside radius of the ring stays")
    # the change reaches the generated teeth
    for x in (g, p):
        rec = X.call(X.get(X.get(x, "gearcore"), "shape_recipe"), scalar("z"))
        for n, r in (("inside", "rc_in_coeff"), ("outside", "rc_out_coeff")):
            same(rep, "relation", w, E(X.get(rec, "tooth_generator." + r)), co(x, n), "teeth generated after the adaptation")
    rep.engine(X)


def scenarios(tier):
    out = [("adapt radii inside=%d,%d" % i, "sc_adapt", i) for i in ((0, 0), (0, 1), (1, 0))]
    out += [("gear " + n, "sc_gear", (c, o)) for n, c, o in configs(tier)]
    out += [("reference circles", "sc_circles", ()), ("formulas", "sc_math", ())]
    out += [("mesh " + m[0], "sc_mesh", m[1:]) for m in mesh_configs(tier) if "Rack" in m[1] or m[1] == "CycloidGear"]
    return out
