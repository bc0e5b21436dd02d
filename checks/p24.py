"""Meshed gears are tangent, aligned and in phase."""
from .common import *
from . import oracle as O
from .oracle import E, same, sin, cos, tan, arctan, eff, inside
from .facts import core_gear
from .p23 import solved
from .vec import G

EXPLAIN = ("abstract interpretation of mesh_to of every pair of classes with an arbitrarily placed partner, arbitrary tooth counts, cone and "
           "helix angles; the resulting placement terms are compared with the conditions for two pitch surfaces to roll on each other: "
           "coinciding cone apexes, pitch cones touching along the generatrix on the target side, tangent pitch circles, equal tooth "
           "direction at the pitch point, a tooth facing a tooth space")
RULE = ("side: the gear lies on the line through the partner's centre along the target direction; tangent: pitch cones share apex and the "
        "generatrix on the target side, pitch circles (or circle and rack pitch line) touch; axes: parallel axes for cylindrical pairs, "
        "tooth directions of helical gears agree at the pitch point; phase: tooth phases at the contact add up to one half (external) "
        "or are equal (ring), rack phase likewise")
ASSUME = ["tooth counts are integers", "the target direction is perpendicular to the partner's axis", "target direction, centres and orientations "
          "are otherwise arbitrary", "with zero angle bias", "half cone angles are below a right angle, the pinion's is smaller than the ring's"]


def scenarios(tier):
    out = [("mesh " + m[0], "sc_mesh", m[1:]) for m in mesh_configs(tier)]
    for cone in (0, None):
        for ins in ((0, 0), (0, 1), (1, 0)):
            out.append(("mesh core gears cone=%s inside=%s" % (cone, ins), "sc_core", (cone, ins)))
    return out


def E_(v):
    return E(v.n if isinstance(v, Arr) else v)


def direction(g, R):
    raw = direction_in()
    z = g.z(R)
    return g.sub(raw, g.mul(z, g.dot(raw, z)))


def tr(X, o):
    t = X.get(o, "gearcore.transform") if "gearcore" in o.d else X.get(o, "transform")
    return X.I.getattr(t, "center"), X.I.getattr(t, "orientation"), E(X.I.getattr(t, "angle"))


def check(rep, X, who, A, B, p1, p2, ins, cone, t, tangent, helix=None):
    """A, B: (centre, orientation, angle); p: dict(N, m, gamma)"""
    g = G(X)
    c1, R1, a1 = A
    c2, R2, a2 = B
    z1, z2 = g.z(R1), g.z(R2)
    t = g.unit(t)
    if cone:
        def apex(c, z, p):
            return g.add(c, g.mul(z, (p["m"] * p["N"] / 2 / tan(p["gamma"])).n))
        same(rep, "tangent", who, apex(c1, z1, p1), apex(c2, z2, p2), "cone apexes coincide")
        gen = g.add(g.mul(z2, (-cos(p2["gamma"])).n), g.mul(t, sin(p2["gamma"]).n))
        same(rep, "tangent", who, E(g.dot(gen, z1)), -cos(p1["gamma"]), "generatrix of the partner on the target side lies on this pitch cone")
        # in the plane of the target direction and the partner's axis
        same(rep, "side", who, E(g.dot(z1, g.np("cross", t, z2))), E(D.num_const(0.0)), "axis in the plane of the target direction")
        e1 = e2 = gen
    else:
        u = g.sub(c2, c1)
        same(rep, "side", who, g.np("cross", u, t), E_(g.mul(u, D.num_const(0.0))), "centres on the line along the target direction")
        if helix is None:
            same(rep, "axes", who, z1, E_(z2), "axes parallel")
        else:
            # tooth direction at the pitch point
            ue = g.unit(u)
            def tooth(z, b, e):
                return g.add(g.mul(z, cos(b).n), g.mul(g.np("cross", z, e), sin(b).n))
            # outward directions of both gears at the contact
            o1 = g.neg(ue) if ins[1] else ue
            o2 = ue if ins[0] else g.neg(ue)
            same(rep, "axes", who, tooth(z1, helix[0], o1), E_(tooth(z2, helix[1], o2)), "tooth directions at the pitch point")
        if tangent:
            r1, r2 = p1["m"] * p1["N"] / 2, p2["m"] * p2["N"] / 2
            d = E(D.n_norm(u.n))
            same(rep, "tangent", who, d, E(D.n_fn("abs", (r1 - r2).n)) if any(ins) else r1 + r2, "distance of the centres")
            if not ins[0]:
                same(rep, "side", who, c1, E_(g.add(c2, g.mul(t, d.n))), "on the target side of the partner")
        if ins[0]:
            e1 = e2 = u
        elif ins[1]:
            e1 = e2 = g.neg(u)
        else:
            e1, e2 = u, g.neg(u)
    f1 = (g.xy(e1, R1) - a1) * p1["N"]
    f2 = (g.xy(e2, R2) - a2) * p2["N"]
    if any(ins):
        same(rep, "phase", who, cos(f1 - f2), E(D.num_const(1.0)), "teeth of the pinion in the tooth spaces of the ring")
    else:
        same(rep, "phase", who, cos(f1 + f2), E(D.num_const(-1.0)), "a tooth faces a tooth space")


def half_angles(ins):
    """half cone angles below a right angle; the pinion of a ring pair has the smaller one"""
    w = [arctan(E(scalar("cone%d" % k, 0, "+"))) for k in (1, 2)]
    part = E(scalar("part", 0, "+"))
    if any(ins):
        w[0 if ins[1] else 1] = w[1 if ins[1] else 0] * (part / (part + 1))
    return w


def sc_mesh(rep, c1, o1, c2, o2):
    X = context()
    g = G(X)
    R2 = orient("b.orientation")
    t = direction(g, R2)
    ins = inside(c1, o1), inside(c2, o2)
    cone = is_cone(c1, o1)
    if cone:
        w = half_angles(ins)
        f = X.cls(c1).lookup("mesh_to")[0]
        a, b = make(X, c1, o1, "a.", cone_angle=(w[0] * 2).n), make(X, c2, o2, "b.", cone_angle=(w[1] * 2).n)
        profile_hook(X)
        kw = {"target_dir": t}
        for n, v in (("backlash", scalar("mesh.backlash", 1)), ("angle_bias", None)):
            if n in [x.arg for x in f.node.args.args]:
                kw[n] = v
    else:
        a, b, kw, _ = mesh(X, c1, o1, c2, o2, t)
    if "angle_bias" in kw:
        kw["angle_bias"] = D.num_const(0.0)
    if "offset" in kw:
        kw["offset"] = D.num_const(0.0)
    solved(X, arctan(E(scalar("q", 0, "+"))))
    ok, _ = X.guard(lambda: X.meth(a, "mesh_to", b, **kw))
    X.I.solve_hook = None
    if not ok:
        return rep.unk("mesh_to fails")
    if "Rack" in c1:
        return rack(rep, X, g, a, b, c1, c2, o2, t)
    if "Rack" in c2:
        return rep.unk("partner is a rack")
    p1, p2 = eff(c1, o1, "a."), eff(c2, o2, "b.")
    if cone:
        p1["gamma"], p2["gamma"] = w
    helix = None
    if c1 == "HelicalGear":
        helix = p1["beta"], p2["beta"]
    A, B = tr(X, a), tr(X, b)
    check(rep, X, "%s.mesh_to" % c1, A, B, p1, p2, ins, cone, t, "Cycloid" in c1, helix)
    rep.engine(X)


def rack(rep, X, g, a, b, c1, c2, o2, t):
    p = eff(c2, o2, "b.")
    c2_, R2, a2 = tr(X, b)
    e = g.unit(t)
    pos, R1, off = X.I.getattr(a, "position"), X.I.getattr(a, "orientation"), E(X.I.getattr(a, "offset"))
    r = p["m"] * (p["N"] / 2 + p["shift"]) if c2 != "CycloidGear" else p["m"] * p["N"] / 2
    same(rep, "tangent", "%s.mesh_to" % c1, pos, E_(g.add(c2_, g.mul(e, r.n))), "pitch line touches the shifted pitch circle")
    same(rep, "axes", "%s.mesh_to" % c1, g.z(R1), E_(g.z(R2)), "axes parallel")
    x = g.mm(R1, Arr(M.assemble([D.num_const(1), D.num_const(0), D.num_const(0)])))
    same(rep, "axes", "%s.mesh_to" % c1, x, E_(g.neg(e)), "rack teeth point to the gear")
    f = (g.xy(t, R2) - a2) * p["N"]
    same(rep, "phase", "%s.mesh_to" % c1, cos(f - off * (2 * O.PI)), E(D.num_const(-1.0)), "a rack tooth space faces a tooth")
    rep.engine(X)


def sc_core(rep, cone, ins):
    X = context()
    g = G(X)
    if cone == 0:
        a, b = core_gear(X, "a.", cone, inside=ins[0]), core_gear(X, "b.", cone, inside=ins[1])
    else:
        w = half_angles(ins)
        a, b = [X.get(make(X, "InvoluteGear", {"inside_teeth": i, "enable_undercut": 0}, p, cone_angle=(v * 2).n), "gearcore")
                for i, p, v in zip(ins, ("a.", "b."), w)]
    t = direction(g, X.get(b, "transform.orientation"))
    ok, _ = X.guard(lambda: X.meth(a, "mesh_to", b, target_dir=t))
    if not ok:
        return rep.unk("mesh_to fails")
    q = lambda o: dict(N=E(X.get(o, "tooth_param.num_teeth")), m=E(X.get(o, "transform.scale")), gamma=E(X.get(o, "cone.cone_angle")) / 2)
    check(rep, X, "Gear.mesh_to", tr(X, a), tr(X, b), q(a), q(b), [bool(i) for i in ins], cone != 0, t, True)
    rep.engine(X)
