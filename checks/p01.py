"""Queries, builds and conversions never change their inputs."""
from .common import *
from .facts import core_gear
from .p02 import consts, snapshot, compare, show
from . import curves as C

EXPLAIN = ("effect analysis by abstract interpretation of the heap: everything reachable from the object asked, from the other objects "
           "involved and from the library constants (including variables captured by stored functions and default arguments) is "
           "recorded before and after each query, build and conversion of every class; the value numbers must be the same")
RULE = "effect: no storage location reachable before the question has another value number afterwards, except the cached CAD part of the object built"
ASSUME = ["calls into numpy, scipy and build123d modify only what their summaries in sa/ext.py state",
          "attributes that did not exist before (private caches) are not state; what they return later is covered because the question is asked twice"]
CACHE = ["gear.builder", "gear.part", "gear.part_transformed"]


def new(before, after):
    """ignore attributes that are new on an object (memoisation); their effect on answers is compared separately"""
    return {p: v for p, v in after.items() if p in before or not any(p.startswith(q) for q in ())}


def roots_of(X, **kw):
    r = dict(kw)
    r.update({"constant " + k: v for k, v in consts(X).items()})
    return r


def ask(rep, X, roots, b, what, thunk, allowed=(), twice=True):
    ok, v = X.guard(thunk)
    a = snapshot(X, roots)
    b2 = {p: x for p, x in b.items()}
    # paths that are new: a cache attribute (allowed) unless the container itself has changed length
    a2 = {p: x for p, x in a.items() if p in b2}
    compare(rep, X, b2, a2, allowed, what)
    if ok and twice:
        ok2, w = X.guard(thunk)
        if ok2:
            f, g = flatten(v, ""), flatten(w, "")
            for p in f:
                if p in g and f[p][0] == "num" and g[p][0] == "num" and f[p][1].term is not None and g[p][1].term is not None \
                        and exact(f[p][1].term) and exact(g[p][1].term):
                    rep.check(rint.eq(f[p][1].term, g[p][1].term), "repeat", "%s%s" % (what, p),
                              "first answer %s, second answer %s" % (T.show(f[p][1].term)[:150], T.show(g[p][1].term)[:150]))
            a = snapshot(X, roots)
            compare(rep, X, b2, {p: x for p, x in a.items() if p in b2}, allowed, what)
    return ok, v


def sc_reports(rep, c, o):
    X = context()
    g = make(X, c, o)
    profile_hook(X)
    roots = roots_of(X, gear=g)
    b = snapshot(X, roots)
    for n in props_of(g.cls):
        ask(rep, X, roots, b, "%s.%s" % (c, n), lambda: X.I.getattr(g, n))
    for n, a in qargs(X, None).items():
        if g.cls.lookup(n)[0] is not None:
            r2 = roots_of(X, gear=g, **{"argument%d" % i: x for i, x in enumerate(a)})
            ask(rep, X, r2, snapshot(X, r2), "%s.%s" % (c, n), lambda: X.meth(g, n, *a))
    if g.cls.lookup("copy")[0] is not None:
        ask(rep, X, roots, b, "%s.copy" % c, lambda: X.meth(g, "copy"))
    rep.engine(X)


def sc_core(rep, cone, ins):
    X = context()
    g = core_gear(X, cone=cone, inside=ins)
    profile_hook(X)
    roots = roots_of(X, gear=g)
    b = snapshot(X, roots)
    for n in props_of(g.cls):
        ask(rep, X, roots, b, "Gear.%s" % n, lambda: X.I.getattr(g, n))
    z = scalar("z")
    for n, kw in (("curve_gen_at_z", {}), ("sphere_data_at_z", {}), ("cone_at_z", {}), ("boundary_at_z", {}),
                  ("boundary_at_z", {"continuous": T_(0)})):
        if g.cls.lookup(n)[0] is not None:
            ask(rep, X, roots, b, "Gear.%s%s" % (n, "" if not kw else "(continuous=False)"), lambda: X.meth(g, n, z, **kw), twice=False)
    ask(rep, X, roots, b, "Gear.copy", lambda: X.meth(g, "copy"), twice=False)
    rep.engine(X)


def sc_gen(rep, c, o, edge):
    X = context()
    g = make(X, c, o, edge=edge)
    roots = roots_of(X, gear=g)
    b = snapshot(X, roots)
    core = X.get(g, "gearcore")
    ask(rep, X, roots, b, "%s.gearcore.curve_gen_at_z" % c, lambda: X.meth(core, "curve_gen_at_z", scalar("z")), twice=False)
    rep.engine(X)


def sc_build(rep, c, o):
    X = context()
    g = make(X, c, o, placed="Rack" not in c)
    profile_hook(X)
    core = g.d.get("gearcore")
    a = {}
    if isinstance(core, Instance):
        if "Helical" in c:
            three_slices(X, g)
        a = dict(n_vert=scalar("n_vert", 0, "+", True))
    roots = roots_of(X, gear=g)
    b = snapshot(X, roots)
    ok, _ = ask(rep, X, roots, b, "%s.build_part" % c, lambda: X.meth(g, "build_part", **a), CACHE, twice=False)
    if not ok:
        rep.unk("%s.build_part always raises" % c)
    elif g.cls.lookup("update_part")[0] is not None:
        b = snapshot(X, roots)
        ask(rep, X, roots, b, "%s.update_part" % c, lambda: X.meth(g, "update_part"), ["gear.builder.part_transformed", "gear.part_transformed"], twice=False)
    rep.engine(X)


def sc_pair(rep, cls2):
    X = context()
    o = {"cone": 0, "enable_undercut": 0, "inside_teeth": 0}
    g, p = make(X, "InvoluteGear", o, "a."), make(X, cls2, o, "b.")
    roots = roots_of(X, gear=g, partner=p)
    b = snapshot(X, roots)
    ok, l = ask(rep, X, roots, b, "LineOfAction", lambda: X.call(X.cls("LineOfAction"), g, p), twice=False)
    if ok:
        for n in props_of(l.cls):
            ask(rep, X, roots, b, "LineOfAction.%s" % n, lambda: X.I.getattr(l, n))
        ask(rep, X, roots, b, "LineOfAction.LOA_gen", lambda: X.meth(l, "LOA_gen"), twice=False)
    rep.engine(X)


def sc_curve(rep, kind, how):
    X = context()
    c, other = C.mk(X, kind, "c."), C.line(X, "other.")
    C.treat(X, c, how)
    roots = roots_of(X, curve=c, other=other)
    b = snapshot(X, roots)
    for n, th in C.asks(X, c, kind, other):
        ask(rep, X, roots, b, "%s of %s" % (n, c.cls.name), th, twice=False)
    rep.engine(X)


def sc_profile(rep, ext):
    X = context()
    p = synth_profile(X, "prof:", transform=C.transform(X, "t."), extended=ext)
    cone = X.call(X.name("ConicData"), cone_angle=scalar("cone_angle"), base_radius=scalar("base_radius", 1, "+"))
    tp = X.call(X.name("GearToothParam"), num_teeth=scalar("number_of_teeth", 0, "+", True))
    roots = roots_of(X, profile=p, cone=cone, tooth_param=tp)
    b = snapshot(X, roots)
    F = lambda n, m="gggears_core": X.name(n, m)
    todo = [("generate_profile_extensions", lambda: X.call(F("generate_profile_extensions"), p, cone)),
            ("generate_profile_closed", lambda: X.call(F("generate_profile_closed"), p, cone)),
            ("generate_boundary_chain", lambda: X.call(F("generate_boundary_chain"), p, tp)),
            ("generate_boundary", lambda: X.call(F("generate_boundary"), p, tp)),
            ("GearRefProfileExtended.from_refprofile", lambda: X.call(X.I.getattr(F("GearRefProfileExtended"), "from_refprofile"), p, cone)),
            ("gearprofile_to_nurb", lambda: X.call(F("gearprofile_to_nurb", "gggears_convert"), p)),
            ("generate_boundary_edges", lambda: X.call(F("generate_boundary_edges", "gggears_build123d"), p, C.transform(X, "t2.")))]
    for n in props_of(p.cls):
        todo.append((n, lambda n=n: X.I.getattr(p, n)))
    for n, th in todo:
        ask(rep, X, roots, b, "%s of %s" % (n, p.cls.name), th, twice=False)
    rep.engine(X)


VEC = {"v1", "v2", "plane_normal", "p0", "p1", "p2", "center", "v_offs", "axis", "point", "offset", "line_direction", "target_dir", "target_dir_norm"}
PTS = {"points", "target_points", "initpoints", "initguess"}
LST = {"guess", "guesses", "start_locations", "locations"}
CRV = {"curve", "curve1", "curve2", "target_curve", "input_curve", "ref_curve"}


def given(X, name, many):
    """an arbitrary value for a parameter of this name"""
    if name in VEC:
        return C.vec("in." + name)
    if name in ("v", "s", "c", "p", "a", "b") and many < 2:
        return C.pts("in." + name, 4) if many else C.vec("in." + name)
    if name in ("t", "u", "v", "x", "s") and many:
        return Arr(M.assemble([scalar("in.%s%d" % (name, k)) for k in range(3)]))
    if name in PTS:
        return C.pts("in.points", 4)
    if name == "weights":
        return C.wts("in.weights", 4)
    if name in LST:
        return ListV([scalar("in.%s%d" % (name, k)) for k in range(2)])
    if name in CRV:
        return C.line(X, "in." + name + ".")
    if name == "input_curves":
        return C.mk(X, "CurveChain", "in.chain.")
    if name in ("geartransform_1", "geartransform_2", "gear2", "transform"):
        return C.transform(X, "in." + name + ".")
    if name.startswith("cone_data"):
        return X.call(X.name("ConicData"), cone_angle=scalar("in.%s.cone_angle" % name), base_radius=scalar("in.%s.base_radius" % name, 1, "+"))
    if name in ("n", "n_points"):
        return D.num_const(4)
    return scalar("in." + name)


def sc_function(rep, mod, name, many):
    """a module level function with arbitrary arguments"""
    X = C.few(context())
    f = X.name(name, mod)
    ps = [a.arg for a in f.node.args.args]
    kw = {p: given(X, p, many) for p in ps if p not in ("method", "skip_inactive", "force_2D", "samp_ratio", "func", "pad_inactive", "n_max")}
    data = {k: v for k, v in kw.items() if not isinstance(v, Num)}
    if not data:
        return
    roots = roots_of(X, **data)
    b = snapshot(X, roots)
    ask(rep, X, roots, b, name, lambda: X.call(f, **kw), twice=False)
    rep.engine(X)


FUNCTIONS = {
    "function_generators": "rotate_vector normalize_vector angle_between_vectors angle_between_vector_and_plane project_vector_to_plane angle_of_vector_in_xy "
                           "involute_circle involute_sphere cycloid_circle cycloid_line cycloid_cone arc_from_2_point arc_from_2_point_center octoid calc_nurbezier_arc "
                           "calc_quadratic_bezier_interp",
    "gearmath": "calc_mesh_angle calc_mesh_orientation calc_bevel_gear_placement_vector",
    "curve": "find_curve_intersect find_curve_line_intersect find_curve_plane_intersect find_curve_nearest_point calc_tangent_arc fillet_curve",
    "gggears_build123d": "nppoint2Vector np2v transform2Location",
}
ARRAYS = {"function_generators": "bezier bezierdc lerp nurbezier bezier_diff_t nurbezier_diff_t nurbezier_diff_points nurbezier_diff_weights xyz_to_spherical "
                                 "spherical_to_xyz xyz_to_cylindrical cylindrical_to_xyz"}


def scenarios(tier):
    out = []
    for d, ks in ((FUNCTIONS, (0,)), (ARRAYS, (0, 1, 2))):
        for m in d:
            for n in d[m].split():
                for k in ks:
                    out.append(("function %s%s" % (n, ("", " of many", " of many parameters")[k]), "sc_function", (m, n, k)))
    for n, c, o in configs(tier):
        out.append(("reports " + n, "sc_reports", (c, o)))
        out.append(("build " + n, "sc_build", (c, o)))
        out.append(("profile " + n, "sc_gen", (c, o, False)))
        if tier != "quick":
            out.append(("profile+edges " + n, "sc_gen", (c, o, True)))
    for n, c, o in configs(tier, RACKS):
        out.append(("build " + n, "sc_build", (c, o)))
    for cone in (0, None):
        for i in (0, 1):
            out.append(("core gear cone=%s inside=%s" % (cone, i), "sc_core", (cone, i)))
    for k in C.KINDS:
        for h in C.TREAT:
            out.append(("curve %s %s" % (k, h), "sc_curve", (k, h)))
    for e in (False, True):
        out.append(("profile extended=%s" % e, "sc_profile", (e,)))
    for i in ("InvoluteGear", "SpurRingGear"):
        out.append(("line of action with " + i, "sc_pair", (i,)))
    return out
