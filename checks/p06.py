"""Placement never influences shape."""
from .common import *
from .facts import core_gear
from .p11 import heights

EXPLAIN = ("non-interference analysis: position, orientation and rotation of every gear and rack are labelled inputs; data-flow sets of "
           "every shape quantity (recipe, slices, tooth data, generated profiles, the conversion to surfaces, the untransformed solid) "
           "are computed by abstract interpretation and must not contain those labels; scalar reports are compared between two gears "
           "that differ only in placement")
RULE = ("interfere: no shape quantity carries a placement label in its data-flow set, unless its value number is shown equal for "
        "independent placements; equal: reports of a length, angle or count are equal for two independent placements")
ASSUME = ["control dependences through the condition of a value merge are part of the data-flow set"]
PLACE = {"center", "orientation", "angle", "position", "offset"}
#: reports that are about the shape alone
SHAPE = ["pitch_radius", "rp", "module", "radius_spherical", "cone_angle", "pitch_angle", "z_height", "addendum_radius",
         "dedendum_radius", "max_outside_radius", "gamma", "beta", "helix_angle", "r_base", "angle_base", "number_of_teeth",
         "cone_angle_limits_bottom", "cone_angle_limits_top", "inside_cycloid_coefficient", "outside_cycloid_coefficient"]


def free(rep, what, v, n=14):
    d = deps_of(v, n) & PLACE
    rep.check(not d, "interfere", what, "depends on the placement of the gear (%s)" % ", ".join(sorted(d)), what)


def sc_shape(rep, c, o, hook):
    X = context()
    g = make(X, c, o)
    core = X.get(g, "gearcore")
    z = scalar("z")
    rec = ask_(X, lambda: X.call(X.get(core, "shape_recipe"), z))
    if rec is not None:
        for p, n in leaves(rec, "recipe"):
            if "<" not in p:
                free(rep, "%s %s" % (c, p), n)
    free(rep, "%s slices" % c, X.get(core, "z_vals"))
    free(rep, "%s tooth data" % c, X.get(core, "tooth_param"))
    pr = ask_(X, lambda: X.meth(core, "curve_gen_at_z", z))
    if isinstance(pr, Instance):
        for k, v in pr.d.items():
            free(rep, "%s profile.%s" % (c, k), v)
    rep.engine(X)


def sc_reports(rep, c, o):
    """reports for two independent placements"""
    X = context()
    g = make(X, c, o)
    h = make(X, c, o)
    X.place(h, "other.")
    profile_hook(X)
    for n in SHAPE:
        if g.cls.lookup(n)[0] is None:
            continue
        a, b = [ask_(X, lambda: X.I.getattr(k, n)) for k in (g, h)]
        if a is None or b is None:
            continue
        agree(rep, "equal", "%s.%s" % (c, n), a, b, "for two placements", PLACE)
    # radii of the reference circles
    a, b = [ask_(X, lambda: X.meth(k, "radii_data_gen", scalar("z"))) for k in (g, h)]
    if isinstance(a, Instance) and isinstance(b, Instance):
        for k in a.d:
            if isinstance(a.d[k], Instance) and k in b.d:
                x, y = [ask_(X, lambda: X.I.getattr(r.d[k], "radius")) for r in (a, b)]
                if x is not None and y is not None:
                    agree(rep, "equal", "%s.radii_data_gen.%s.radius" % (c, k), x, y, "for two placements", PLACE)
    rep.engine(X)


def sc_solid(rep, c, o):
    """the untransformed solid and the heights it is built from"""
    X = context()
    g = make(X, c, o)
    log = heights(X)
    kw = {}
    if "Helical" in c:
        three_slices(X, g)
    ok, _ = X.guard(lambda: X.meth(g, "build_part", n_vert=scalar("n_vert", 0, "+", True)))
    for z in log:
        free(rep, "%s build heights" % c, z)
    b = g.d.get("builder")
    if isinstance(b, Instance):
        for k, v in b.d.items():
            if "transformed" in k or k == "gear":
                continue
            if k in ("solid", "part", "gear_stacks", "nurb_profile_stacks", "side_surf_data", "full_solid", "solids") or True:
                free(rep, "%s builder.%s" % (c, k), v)
    rep.engine(X)


def sc_rack(rep, c, o):
    X = context()
    g = make(X, c, o, placed=False)
    X.guard(lambda: X.meth(g, "build_part"))
    v = g.d.get("part")
    if v is None:
        rep.unk("%s untransformed part" % c)
    else:
        free(rep, "%s.part" % c, v)
    f = ask_(X, lambda: X.meth(g, "_build_ref_tooth_face")) if g.cls.lookup("_build_ref_tooth_face")[0] else None
    if f is not None:
        free(rep, "%s tooth face" % c, f)
    rep.engine(X)


def sc_meshed(rep, c1, o1, c2, o2):
    """shape after meshing depends on nothing of the partner or the direction"""
    X = context()
    g, p, kw, go = mesh(X, c1, o1, c2, o2)
    X.I.call_hook = None
    ok, _ = go()
    if not ok or "gearcore" not in g.d:
        return
    core = X.get(g, "gearcore")
    alien = lambda d: {x for x in d if x.startswith("b.") or x in ("target_dir", "mesh.backlash", "mesh.angle_bias") or x[2:] in PLACE}
    rec = ask_(X, lambda: X.call(X.get(core, "shape_recipe"), scalar("z")))
    for what, v in ([("recipe", rec)] if rec is not None else []) + [("slices", X.get(core, "z_vals")), ("tooth data", X.get(core, "tooth_param"))]:
        for q, n in leaves(v, what):
            if "<" in q:
                continue
            d = alien(n.deps)
            rep.check(not d, "interfere", "%s %s after mesh_to" % (c1, q), "depends on %s" % ", ".join(sorted(d)), q)
    rep.engine(X)


def scenarios(tier):
    out = []
    for n, c, o in configs(tier):
        out += [("shape " + n, "sc_shape", (c, o, 0)), ("reports " + n, "sc_reports", (c, o)), ("solid " + n, "sc_solid", (c, o))]
    out += [("rack " + n, "sc_rack", (c, o)) for n, c, o in configs(tier, RACKS)]
    out += [("mesh " + m[0], "sc_meshed", m[1:]) for m in mesh_configs(tier)]
    return out
