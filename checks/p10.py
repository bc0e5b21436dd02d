"""Angle units: radians everywhere, degrees at the CAD kernel."""
from .common import *
from .facts import *
from . import curves as CV

EXPLAIN = ("abstract interpretation with an angle-unit domain (the factor of each angle relative to radians): public angle "
           "inputs enter in radians, every trigonometric, rotation and CAD kernel call is a checked sink, every sum and "
           "branch of angles is checked for equal units, every reported angle must be in radians")
RULE = ("ang: a trigonometric function or a rotation in radians never receives degrees, a kernel parameter in degrees never "
        "receives radians, angles of different unit are never added; angspec: reported angles are in radians")
ASSUME = ["parameters of build123d documented in degrees and functions of numpy, math and scipy documented in radians are as listed in sa/ext.py",
          "a pure number times an angle keeps its unit unless the factor is 180/pi or pi/180"]
ANG = ["cone_angle", "pitch_angle", "angle", "gamma", "beta", "helix_angle", "angle_base", "cone_angle_limits_bottom",
       "cone_angle_limits_top", "cone_angles_at_z", "gearcore.pitch_angle"]


def spec(rep, X, name, v):
    if name in ANG:
        for p, n in leaves(v, name):
            c = D.ang_class(n.ang)
            if c:
                rep.check(c == "rad", "angspec", name, "reported in degrees")


def place(rep, X, c, k, v):
    if k == "angle":
        for p, n in leaves(v, k):
            u = D.ang_class(n.ang)
            if u:
                rep.check(u == "rad", "angspec", "%s.mesh_to" % c, "rotation angle after meshing is in degrees")


F = Facts("ang", "ang", spec, None, place)
sc_reports, sc_profile, sc_build, sc_mesh, sc_loa, sc_core = F.reports, F.profile, F.build, F.mesh, F.loa, F.core


def scenarios(tier):
    out = fact_scenarios(tier)
    for k in ("ArcCurve", "CurveChain", "RotatedCurve"):
        for h in ("as created", "trimmed", "reversed"):
            out.append(("edges of %s %s" % (k, h), "sc_edges", (k, h)))
    return out


def sc_edges(rep, kind, how):
    """the CAD edges of an arbitrary curve"""
    X = CV.few(context(), 5)
    c = CV.treat(X, CV.mk(X, kind), how)
    ok, v = X.guard(lambda: X.call(X.name("curve_to_edges", "gggears_build123d"), c))
    if not ok:
        rep.unk("edges of %s" % kind)
    F.sinks(rep, X)
