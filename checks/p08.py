"""Rigid motion covariance of everything reported."""
from .common import *
from .facts import *
import math

EXPLAIN = ("abstract interpretation with a rigid-motion domain: the gear's position is a world point (translation weight 1), "
           "its orientation a world frame, its shape parameters invariants; every operation is checked to be covariant (no world "
           "coordinate picked out, no fixed vector added to a world vector, no frame multiplied from the wrong side, translation "
           "weights add up); every report must transform as its documented kind")
RULE = ("rot: no result combines world and frame-independent quantities in a way that is not covariant; rotspec: points have "
        "translation weight exactly 1, directions and axes 0, lengths, radii and angles are invariant, locations and parts are placed "
        "by the gear's own frame; placed: the part is the local solid times the module, turned by orientation and angle, moved to the centre")
ASSUME = ["summaries of numpy, scipy and build123d calls used by the library (sa/ext.py) have the stated covariance",
          "the world frame enters only through positions, orientations and directions given by the user"]
POINTS = ["center", "center_spherical", "center_point_at_z", "center_point_bottom", "center_point_middle", "center_point_top",
          "gearcore.center", "gearcore.center_sphere"]
INVAR = ["pitch_radius", "rp", "module", "radius_spherical", "cone_angle", "pitch_angle", "angle", "z_height", "addendum_radius",
         "dedendum_radius", "max_outside_radius", "gamma", "beta", "helix_angle", "r_base", "angle_base", "gearcore.rp", "gearcore.R",
         "gearcore.pitch_angle", "cone_angle_limits_bottom", "cone_angle_limits_top", "cone_angles_at_z", "number_of_teeth",
         "proportion_to_z", "p2z"]
LOCS = ["center_location_at_z", "center_location_bottom", "center_location_middle", "center_location_top",
        "face_location_top", "face_location_bottom"]


def is_point(rep, construct, n):
    if n.rot is None or isinstance(n.rot, Bad):
        return
    if n.rot != "V":
        rep.bad("rotspec", construct, "a reported point does not move with the gear (behaves as %s)" % (n.rot,))
        return
    if n.wt is None:
        return
    rep.check(rint.eq(n.wt, T.ONE), "rotspec", construct, "a reported point moves by %s times the translation of the gear" % T.show(n.wt))


def invariant(rep, construct, n):
    if n.rot is None or isinstance(n.rot, Bad):
        return
    rep.check(n.rot in ("S", D.Z), "rotspec", construct, "a reported length, radius or angle changes with the placement (behaves as %s)" % (n.rot,))


def spec(rep, X, name, v):
    if name in POINTS:
        for p, n in leaves(v, name):
            is_point(rep, name, n)
    elif name in INVAR:
        for p, n in leaves(v, name):
            invariant(rep, name, n)
    elif name in LOCS and isinstance(v, ExtObj):
        location(rep, name, v)
    elif name in ("radii_data_gen", "circle_involute_base") or name.startswith("radii_data"):
        for role, cur in ([(name, v)] if not (isinstance(v, Instance) and "r_a_curve" in v.d) else list(v.d.items())):
            curve(rep, X, "%s.%s" % (name, role), cur)
    elif name in ("cone_data", "gearcore.cone", "gearcore.cone_at_z", "gearcore.sphere_data_at_z"):
        pass
    if name == "center_transform_at_z" and isinstance(v, Instance):
        is_point(rep, name + ".center", nnum(X, v, "center"))
        frame(rep, name + ".orientation", nnum(X, v, "orientation"))


def nnum(X, o, a):
    x = X.I.getattr(o, a)
    return x.n if isinstance(x, Arr) else x


def frame(rep, construct, n):
    if isinstance(n, Num) and n.rot is not None and not isinstance(n.rot, Bad):
        rep.check(n.rot == "F", "rotspec", construct, "a reported orientation does not turn with the gear (behaves as %s)" % (n.rot,))


def location(rep, name, v):
    c, m = v.a.get("c"), v.a.get("m")
    for x, f in ((c, is_point), (m, frame)):
        n = x.n if isinstance(x, Arr) else x
        if isinstance(n, Num):
            f(rep, name, n)
    if v.n is not None and v.n.rot is not None and not isinstance(v.n.rot, Bad):
        rep.check(v.n.rot not in ("S", D.Z), "rotspec", name, "a reported location does not move with the gear")


def curve(rep, X, name, cur):
    if not isinstance(cur, Instance):
        return
    for a, f in (("center", is_point), ("radius", invariant), ("r", invariant)):
        if a in cur.d or a in props_of(cur.cls):
            ok, x = X.guard(lambda: X.I.getattr(cur, a))
            if ok:
                n = x.n if isinstance(x, Arr) else x
                if isinstance(n, Num):
                    f(rep, "%s.%s" % (name, a), n)
    ok, p = X.guard(lambda: X.call(cur, scalar("t")))
    if ok and isinstance(p, Arr):
        is_point(rep, name + "(t)", p.n)


def part(rep, X, c, v, g):
    """the part is the gear's own solid, scaled by the module and carried by exactly the gear's placement"""
    for u in (v.alts if isinstance(v, Union) else [v]):
        if not isinstance(u, ExtObj) or "pl" not in u.a:
            rep.unk("placement of the part of %s" % c)
            continue
        core, deps, A, b, _ = u.a["pl"]
        if A is None or b is None:
            rep.unk("placement of the part of %s" % c)
            continue
        pl = {k: nterm(x) for k, x in placement(X, g).items()}
        m = nterm(X.I.getattr(g, "module"))
        if "offset" in pl:
            wa = T.mul(m, pl["orientation"])
            wb = T.add(pl["position"], T.matmul(pl["orientation"], T.mul(T.mul(T.const(math.pi), T.mul(m, pl["offset"])), T.E3[1])))
        else:
            wa = T.mul(m, T.matmul(pl["orientation"], T.rot("z", pl["angle"])))
            wb = pl["center"]
        rep.check(rint.eq(A, wa), "placed", "%s.build_part" % c, "part is oriented and scaled by %s, the gear by %s" % (T.show(A), T.show(wa)))
        rep.check(rint.eq(b, wb), "placed", "%s.build_part" % c, "part is positioned at %s, the gear at %s" % (T.show(b), T.show(wb)))


class F8(Facts):
    def loaspec(self, rep, X, v):
        for p, n in leaves(v, "line of action"):
            if p.endswith(".p0") or p.endswith(".p1"):
                is_point(rep, "LineOfAction end points", n)


F = F8("rot", "rot", spec, part)
sc_reports, sc_profile, sc_build, sc_mesh, sc_loa, sc_core = F.reports, F.profile, F.build, F.mesh, F.loa, F.core


def scenarios(tier):
    return [s for s in fact_scenarios(tier) if not s[0].startswith("mesh ")]
