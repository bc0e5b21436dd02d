"""Assigning a documented attribute takes effect everywhere."""
from . import curves as C
from .common import *
from .p13 import at, ends, cmp, length, pieces
from .p05 import features
from sa.flat import nterm
from sa import rint, terms as T, domains as D, models as M

EXPLAIN = ("abstract interpretation of the setter of every settable property of every gear, rack, curve and reference object with a symbolic "
           "new value; the value read back and every report afterwards are compared as terms with those of an object that has had this "
           "value from the start")
RULE = ("readback: the attribute reads as the value assigned; follows: every report equals that of an object created or placed with this "
        "value; kept: an assignment leaves unrelated entries of the placement alone; covered: every property with a setter is examined")
ASSUME = ["reports are compared where both sides are exact terms"]
#: how to make the object that has had the value from the start
GEAR = {"center", "angle", "module", "inside_cycloid_coefficient", "outside_cycloid_coefficient", "cone_angle"}


def scenarios(tier):
    out = []
    for n, c, o in configs(tier, [x for x in GEARS if x not in RACKS]):
        for a in sorted(GEAR):
            if "cycloid" in a and c != "CycloidGear":
                continue
            out.append(("%s.%s" % (n, a), "sc_gear", (c, o, a)))
            if a not in ("center", "angle", "cone_angle") and not o.get("enable_undercut") and (tier != "quick" or c in ("SpurGear", "CycloidGear") and not o.get("inside_teeth")):
                out.append(("%s.%s, profile generation included" % (n, a), "sc_gear", (c, o, a, True)))
    for how in C.TREAT:
        for a in ("radius", "center", "rotmat"):
            out.append(("ArcCurve %s: %s" % (how, a), "sc_arc", (how, a)))
    for k in ("CurveChain", "nested CurveChain", "NURBSCurve"):
        out.append(("%s: active" % k, "sc_active", (k,)))
    out.append(("NURBSCurve: points", "sc_points", ()))
    out.append(("reference circles", "sc_circles", ()))
    out.append(("reference lines", "sc_lines", ()))
    out.append(("core gear: center", "sc_core", ()))
    for n, c, o in configs(tier, ["CycloidGear"]):
        out.append(("adapt_cycloid_radii %s" % n, "sc_adapt", (c, o)))
    out.append(("settable attributes", "sc_covered", ()))
    return out


def settable(cls):
    return [k for k in props_of(cls) if any(isinstance(c.d.get(k), Prop) and getattr(c.d.get(k), "fset", None) is not None for c in cls.mro)]


def new_value(a):
    if a == "center":
        return point("new.center")
    if a == "module":
        return scalar("new.module", 1, "+")
    if a == "rotmat":
        return orient("new.rotmat")
    if a == "radius":
        return scalar("new.radius", 1, "+")
    return scalar("new." + a)


def sc_gear(rep, c, o, a, real=False):
    X = context()
    g = make(X, c, o)
    if g.cls.lookup(a)[0] is None:
        return rep.good("absent")
    if a not in settable(g.cls):
        # reading only: an assignment fails, which is allowed
        return rep.good("read only")
    v = new_value(a)
    where = "%s.%s" % (g.cls.lookup(a)[1].name if g.cls.lookup(a)[1] is not None else c, a)
    ok, _ = X.guard(lambda: X.I.setattr(g, a, v))
    if not ok:
        return rep.good("assignment fails")
    back = ask_(X, lambda: X.I.getattr(g, a))
    cmp(rep, "readback", where, back, v, "%s after assigning" % c)
    if back is not None and nterm(back) is not None and rint.eq(nterm(back), nterm(v)) is not True:
        return rep.engine(X)
    H = reference(X, c, o, a, v)
    if H is None:
        return rep.unk("reference of " + where)
    from .p21 import FEATURES
    t = {n: None for n in FEATURES}
    p, q = features(X, g, t), features(X, H, t)
    for n in FEATURES:
        if n in p and n in q:
            agree(rep, "follows", "%s: %s after %s" % (c, n, a), p[n], q[n], "compared with a gear that had this %s from the start" % a, NOFLOW)
    skip = SKIP
    if not real:
        profile_hook(X)
        skip = ()
    r, s = reports(X, g, skip=skip), reports(X, H, skip=skip)
    for n in sorted(set(r) & set(s)):
        if n in ("inputparam",):
            continue
        agree(rep, "follows", "%s.%s after %s" % (c, n, a), r[n], s[n], "compared with a gear that had this %s from the start" % a, NOFLOW)
    rep.engine(X)


#: made from the same data as the radii that are compared, and costly to interpret
SKIP = {"max_outside_radius", "radii_data_array", "radii_data_bottom", "radii_data_top", "radii_data_gen", "cone_angle_limits_bottom",
        "cone_angle_limits_top"}
NOFLOW = {"new"}


def reference(X, c, o, a, v):
    if a == "module":
        m, h = scalar("module", 1, "+"), scalar("height", 1)
        # helical gears take the normal module and report the transverse one
        k = D.n_fn("cos", scalar("helix_angle")) if c in ("HelicalGear", "HelicalRingGear") else None
        m2 = D.n_mul(v, k) if k is not None else v
        return make(X, c, o, module=m2, height=D.n_mul(h, D.n_div(m2, m)))
    if a in ("center", "angle"):
        g = make(X, c, o)
        X.I.setattr(X.get(g, "gearcore.transform"), a, v)
        return g
    if "cycloid" in a:
        return make(X, c, o, **{a: v})
    return None


def sc_arc(rep, how, a):
    X = C.few(context())
    c = C.treat(X, C.arc(X, ""), how)
    v = new_value(a) if a != "center" else C.vec("new.center")
    X.I.setattr(c, a, v)
    cmp(rep, "readback", "ArcCurve." + a, ask_(X, lambda: X.I.getattr(c, a)), v, how)
    if a == "radius":
        h = C.treat(X, C.arc(X, "", radius=v), how)
    elif a == "center":
        h = C.treat(X, C.arc(X, "", center=v), how)
    else:
        base = C.arc(X, "")
        h = None
        # points turn with the new frame: from the centre, in the frame's own coordinates, nothing changes
        old = C.treat(X, C.arc(X, ""), how)
        R0 = X.I.getattr(old, "rotmat")
        for k in (0, 0.375, 1):
            p, q = at(X, c, k), at(X, old, k)
            if p is None or q is None:
                rep.unk("point")
                continue
            loc = lambda x, cc, R: X.I.binop("MatMult", X.I.getattr(R, "T"), X.I.binop("Sub", x, X.I.getattr(cc, "center")))
            cmp(rep, "follows", "ArcCurve.rotmat", ask_(X, lambda: loc(p, c, v)), ask_(X, lambda: loc(q, old, R0)), "%s: point at %s" % (how, k))
        cmp(rep, "follows", "ArcCurve.rotmat", length(X, c), length(X, old), how + ": length")
    if h is not None:
        for k in (0, 0.375, 1):
            cmp(rep, "follows", "ArcCurve." + a, at(X, c, k), at(X, h, k), "%s: point at %s" % (how, k))
        cmp(rep, "follows", "ArcCurve." + a, length(X, c), length(X, h), how + ": length")
        for n in ("p0", "p1", "curvature", "axis", "r", "angle"):
            if c.cls.lookup(n)[0] is not None:
                x, y = ask_(X, lambda: X.I.getattr(c, n)), ask_(X, lambda: X.I.getattr(h, n))
                if isinstance(x, (Num, Arr)) and isinstance(y, (Num, Arr)):
                    cmp(rep, "follows", "ArcCurve." + a, x, y, "%s: %s" % (how, n))
    rep.engine(X)


def sc_active(rep, kind):
    X = C.few(context())
    c = C.mk(X, kind, "")
    for b in (0, 1, 0):
        X.I.setattr(c, "active", T_(b))
        v = ask_(X, lambda: X.I.getattr(c, "active"))
        got = bool(v.const) if isinstance(v, Num) and v.const is not None else (v.v if isinstance(v, Const) else None)
        rep.check(None if got is None else got == bool(b), "readback", "CurveChain.active", "reads %s after assigning %s" % (got, bool(b)), kind)


def sc_points(rep):
    X = C.few(context())
    c = C.mk(X, "NURBSCurve", "")
    n = 7
    new = C.pts("new.points", n)
    old = ask_(X, lambda: X.I.getattr(c, "points"))
    if not isinstance(old, Arr) or old.n.shape is None:
        return rep.unk("points")
    new = C.pts("new.points", old.n.shape[0])
    ok, _ = X.guard(lambda: X.I.setattr(c, "points", new))
    if not ok:
        return rep.unk("assignment fails")
    back = ask_(X, lambda: X.I.getattr(c, "points"))
    cmp(rep, "readback", "NURBSCurve.points", back, new, "NURBSCurve")
    N = old.n.shape[0]
    cmp(rep, "follows", "NURBSCurve.points", at(X, c, 0), M.getitem(X.I, new, D.num_const(0)), "start")
    cmp(rep, "follows", "NURBSCurve.points", at(X, c, 1), M.getitem(X.I, new, D.num_const(N - 1)), "end")
    ps = pieces(X, c)
    off = 0
    for p in ps or []:
        m = ask_(X, lambda: X.I.getattr(p, "points"))
        if isinstance(m, Arr) and m.n.shape:
            for k in range(m.n.shape[0]):
                cmp(rep, "follows", "NURBSCurve.points", M.getitem(X.I, m, D.num_const(k)), M.getitem(X.I, new, D.num_const(off + k)), "point %d" % (off + k))
            off += m.n.shape[0] - 1
    rep.engine(X)


def sc_circles(rep):
    X = C.few(context())
    cs = {n: C.arc(X, n + ".") for n in ("r_a_curve", "r_p_curve", "r_d_curve", "r_o_curve")}
    r = X.call(X.name("GearRefCircles"), **cs)
    v = C.vec("new.center")
    X.I.setattr(r, "center", v)
    cmp(rep, "readback", "GearRefCircles.center", ask_(X, lambda: X.I.getattr(r, "center")), v, "reference circles")
    for n in cs:
        cmp(rep, "follows", "GearRefCircles.center", ask_(X, lambda: X.I.getattr(X.I.getattr(r, n), "center")), v, n)
    rep.engine(X)


def sc_lines(rep):
    X = C.few(context())
    names = ("a_line", "p_line", "d_line", "o_line")
    cs = {n: C.line(X, n + ".") for n in names}
    r = X.call(X.name("RackRefLines"), **cs)
    v = C.vec("new.center")
    old = X.I.getattr(r, "center")
    e = {n: [X.I.getattr(cs[n], "p0"), X.I.getattr(cs[n], "p1")] for n in names}
    X.I.setattr(r, "center", v)
    cmp(rep, "readback", "RackRefLines.center", ask_(X, lambda: X.I.getattr(r, "center")), v, "reference lines")
    d = X.I.binop("Sub", v, old)
    for n in names:
        l = X.I.getattr(r, n)
        for k in (0, 1):
            cmp(rep, "follows", "RackRefLines.center", at(X, l, k), X.I.binop("Add", e[n][k], d), "%s, end %d" % (n, k))
    rep.engine(X)


def sc_core(rep):
    X = context()
    g = make(X, "InvoluteGear", {"cone": 0, "inside_teeth": 0, "enable_undercut": 0})
    core = X.get(g, "gearcore")
    v = point("new.center")
    X.I.setattr(core, "center", v)
    cmp(rep, "readback", "Gear.center", ask_(X, lambda: X.I.getattr(core, "center")), v, "core gear")
    cmp(rep, "follows", "Gear.center", ask_(X, lambda: X.I.getattr(g, "center")), v, "wrapper")
    cmp(rep, "kept", "Gear.center", X.get(g, "gearcore.transform.orientation"), orient("orientation"), "orientation")
    cmp(rep, "kept", "Gear.center", X.get(g, "gearcore.transform.angle"), scalar("angle"), "angle")
    rep.engine(X)


def sc_adapt(rep, c, o):
    """making the radii of two cycloid gears match leaves both where they are"""
    X = context()
    g, h = make(X, c, o, "a."), make(X, c, dict(o, inside_teeth=0), "b.")
    if g.cls.lookup("adapt_cycloid_radii")[0] is None:
        return rep.unk("adapt_cycloid_radii")
    ok, _ = X.guard(lambda: X.meth(g, "adapt_cycloid_radii", h))
    if not ok:
        return rep.unk("adapt_cycloid_radii fails")
    for x, pre in ((g, "a."), (h, "b.")):
        tr = X.get(x, "gearcore.transform")
        cmp(rep, "kept", "CycloidGear.adapt_cycloid_radii", X.I.getattr(tr, "center"), point(pre + "center"), "centre of " + pre)
        cmp(rep, "kept", "CycloidGear.adapt_cycloid_radii", X.I.getattr(tr, "orientation"), orient(pre + "orientation"), "orientation of " + pre)
        cmp(rep, "kept", "CycloidGear.adapt_cycloid_radii", X.I.getattr(tr, "angle"), scalar(pre + "angle"), "angle of " + pre)
        tg = X.get(x, "gearcore.shape_recipe.tooth_generator")
        for a, b in (("inside_cycloid_coefficient", "rc_in_coeff"), ("outside_cycloid_coefficient", "rc_out_coeff")):
            cmp(rep, "follows", "CycloidGear.adapt_cycloid_radii", X.I.getattr(tg, b), ask_(X, lambda: X.I.getattr(x, a)), "%s of %s" % (a, pre))
    rep.engine(X)


def sc_covered(rep):
    """settable attributes that this check does not know are listed as undecided"""
    X = context()
    known = {"ArcCurve": {"radius", "center", "rotmat"}, "NURBSCurve": {"points", "active"}, "CurveChain": {"active"},
             "GearRefCircles": {"center"}, "RackRefLines": {"center"}, "Gear": {"center"}}
    for m in ("curve", "gggears_base_classes", "gggears_core", "gggears_wrapper"):
        for k, v in X.mod(m).d.items():
            if isinstance(v, ClassV) and getattr(v, "module", None) is X.mod(m):
                for a in settable(v):
                    if a in GEAR or any(a in known.get(b.name, ()) for b in v.mro):
                        rep.good("covered")
                    else:
                        rep.unk("settable attribute %s.%s" % (k, a))
