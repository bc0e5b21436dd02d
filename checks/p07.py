"""Scaling: dimensional analysis of every report, mesh and build."""
from .common import *
from .facts import *

EXPLAIN = ("abstract interpretation of the library with a length-dimension domain: every public input carries its length "
           "exponent (module, height, positions, backlash: 1; counts, coefficients, angles: 0); every addition, comparison, "
           "transcendental function, kernel call and branch is checked for homogeneity; the exponent of every report, "
           "placement after meshing and of the built part is compared with the documented one")
RULE = ("dim: no value reaching a result adds, compares or merges quantities of different length exponent, or applies a "
        "transcendental function to a length; dimspec: each report has the length exponent of its kind")
ASSUME = ["numeric constants up to 1e-4 in absolute value are tolerances and may be compared with quantities of any dimension",
          "summaries of numpy, scipy and build123d calls used by the library (sa/ext.py) have the stated homogeneity",
          "Python evaluation order and attribute semantics as implemented in sa/interp.py; functions chosen at run time by "
          "values the analysis does not know are left undecided, never reported"]

DIM = {"pitch_radius": 1, "rp": 1, "module": 1, "radius_spherical": 1, "cone_angle": 0, "center": 1, "center_spherical": 1,
       "center_point_at_z": 1, "center_point_bottom": 1, "center_point_middle": 1, "center_point_top": 1, "pitch_angle": 0,
       "angle": 0, "z_height": 1, "addendum_radius": 1, "dedendum_radius": 1, "max_outside_radius": 1, "gamma": 0, "beta": 0,
       "helix_angle": 0, "r_base": 1, "angle_base": 0, "gearcore.rp": 1, "gearcore.R": 1, "gearcore.pitch_angle": 0,
       "gearcore.center": 1, "gearcore.center_sphere": 1, "cone_angle_limits_bottom": 0, "cone_angle_limits_top": 0,
       "cone_angles_at_z": 0, "number_of_teeth": 0, "cone_data.cone_angle": 0, "cone_data.base_radius": 1,
       "cone_data.center": 1, "gearcore.cone.cone_angle": 0, "proportion_to_z": 0, "p2z": 0}
ATTR = {"r": 1, "radius": 1, "center": 1, "angle": 0, "yaw": 0, "p0": 1, "p1": 1}
CURVES = {"circle_involute_base": ATTR}
LOCS = ["center_location_at_z", "center_location_bottom", "center_location_middle", "center_location_top",
        "face_location_top", "face_location_bottom"]


def spec(rep, X, name, v):
    if name in LOCS and isinstance(v, ExtObj) and v.n is not None and v.n.dim not in (None, D.Z) and not isinstance(v.n.dim, Bad):
        rep.check(abs(v.n.dim - 1) < 1e-9, "dimspec", name, "position of the location has length exponent %s" % v.n.dim)
    if name == "radii_data_gen":
        radii(rep, X, v)
    if name not in DIM:
        return
    want = DIM[name]
    for p, n in leaves(v, name):
        d = n.dim
        if d is None or isinstance(d, Bad) or d == D.Z:
            continue
        rep.check(abs(d - want) < 1e-9, "dimspec", name, "has length exponent %s, documented kind has %s" % (d, want))


def radii(rep, X, v):
    if not isinstance(v, Instance):
        return
    for role, cur in v.d.items():
        if not isinstance(cur, Instance):
            continue
        for a, want in ATTR.items():
            if a not in props_of(cur.cls) and a not in cur.d:
                continue
            ok, x = X.guard(lambda: X.I.getattr(cur, a))
            if not ok:
                continue
            n = x.n if isinstance(x, Arr) else x
            if isinstance(n, Num) and n.dim not in (None, D.Z) and not isinstance(n.dim, Bad):
                rep.check(abs(n.dim - want) < 1e-9, "dimspec", "radii_data.%s.%s" % (role, a),
                          "has length exponent %s, not %s" % (n.dim, want))


def part(rep, X, c, v, g):
    for u in (v.alts if isinstance(v, Union) else [v]):
        if not isinstance(u, ExtObj) or "pl" not in u.a or u.a["pl"][2] is None:
            continue
        core, deps, A, b, _ = u.a["pl"]
        # every term of the placement scales with the unit of length
        for what, t in (("scale", A), ("position", b)):
            d = dim_of(t)
            if d is None:
                rep.unk("dimension of the %s of the part of %s" % (what, c))
            else:
                rep.check(all(abs(x - 1) < 1e-9 for x in d), "dimspec", "%s.build_part" % c,
                          "%s of the built part (%s) has length exponents %s" % (what, T.show(t), sorted(d)))


def dim_of(t):
    """length exponents of the summands of a term over public inputs, or None"""
    out = set()
    for (w, m), c in t:
        d = 0
        for a in w:
            k = T.atom_key(a)
            if k[0] == "in":
                d += INDIM.get(k[1].split(".")[-1], 0)
            elif k[0] not in ("e", "rot", "T"):
                return None
        for a, e in m:
            k = T.atom_key(a)
            if k[0] == "in":
                d += e * INDIM.get(k[1].split(".")[-1], 0)
            elif not (k[0] == "app" and k[1] in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2")):
                return None
        out.add(d)
    return out


INDIM = {"module": 1, "height": 1, "center": 1, "position": 1}


def place(rep, X, c, k, v):
    want = 1 if k in ("center", "position") else 0
    for q, n in leaves(v, k):
        if n.dim is not None and not isinstance(n.dim, Bad) and n.dim != D.Z:
            rep.check(abs(n.dim - want) < 1e-9, "dimspec", "%s.mesh_to %s" % (c, k),
                      "%s after meshing has length exponent %s" % (k, n.dim))


F = Facts("dim", "dim", spec, part, place)
sc_reports, sc_profile, sc_build, sc_mesh, sc_loa, sc_core = F.reports, F.profile, F.build, F.mesh, F.loa, F.core
scenarios = fact_scenarios
