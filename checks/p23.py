"""Centre distance and backlash of involute pairs obey the involute mesh equation."""
from .common import *
from . import oracle as O
from .vec import G
from .oracle import E, same, tan, cos, arctan, arccos, eff, inside

EXPLAIN = ("abstract interpretation of the centre distance and backlash functions with symbolic base radii, base angles, pitch and "
           "backlash; the numeric root search is replaced by its specification (a value at which the searched function is zero): the "
           "function handed to the search is interpreted at a symbolic operating angle, solved for the backlash, and the results are "
           "compared as terms with the textbook relation between distance and backlash; meshing of cylindrical gears is interpreted down to that search")
RULE = ("inverse: the backlash computed from the distance found for a backlash is this backlash; law: with cos(a) = (rb1+rb2)/distance "
        "both functions satisfy 2(rb1+rb2)*inv(a) = sum of base tooth thicknesses - base pitch + backlash (differences for ring pairs); "
        "swap: exchanging the gears keeps the distance (sign reversed for ring pairs); mesh: the placed gears are at "
        "this distance, with the base radius, base angle and backlash of the pair, and the phase is shifted by half the biased backlash "
        "over the base radius; line: both lines of action lie in the plane of the gears and touch both base circles, on opposite sides of the centre line")
ASSUME = ["scipy's root search returns a zero of the function it is given", "both gears have the same base pitch"]


def scenarios(tier):
    out = [("backlash of distance, %s" % n, "sc_inverse", (r,)) for n, r in (("external", 0), ("ring", 1))]
    out += [("distance equation, %s" % n, "sc_law", (r,)) for n, r in (("external", 0), ("ring", 1))]
    out += [("line of action inside=%d,%d" % i, "sc_loa", i) for i in ((0, 0), (0, 1), (1, 0))]
    out += [("exchange, %s" % n, "sc_swap", (r,)) for n, r in (("external", 0), ("ring", 1))]
    for n, c1, o1, c2, o2 in mesh_configs(tier):
        if c1 in INVOLUTE and c2 in INVOLUTE and not is_cone(c1, o1) and not is_cone(c2, o2) and "Rack" not in c1 + c2:
            out.append(("mesh " + n, "sc_mesh", (c1, o1, c2, o2)))
    return out


def fn(X, n):
    return X.name(n, "gearmath")


def solved(X, a):
    """replace root searches by the symbolic solution a; returns the list of searched functions"""
    log = []

    def hook(name, fun, x0):
        if x0.shape != () and not (x0.elems and len(x0.elems) == 1):
            return None
        log.append(fun)
        return a.n
    X.I.solve_hook = hook
    return log


def value(X, f, a):
    v = X.I.call(f, [Arr(M.assemble([a.n]))], {})
    v = v.n if isinstance(v, Arr) else v
    if v.shape != () and v.elems:
        v = v.elems[0]
    if v.shape != ():
        v = M.getitem(X.I, Arr(v), D.num_const(0))
    return E(v)


def data(pre="", pb=None):
    """base radius, base half tooth angle and pitch angle"""
    t = E(scalar(pre + "pitch", 0, "+"))
    r = E(scalar(pre + "rb", 0, "+")) if pb is None else pb / t
    return r, E(scalar(pre + "th", 0, "+")), t


def distance(X, g1, g2, ring, B, a):
    log = solved(X, a)
    ok, d = X.guard(lambda: X.call(fn(X, "calc_involute_mesh_distance"), g1[0].n, g2[0].n, g1[1].n, g2[1].n, g2[2].n,
                                   inside_ring=T_(ring), backlash=B.n))
    X.I.solve_hook = None
    if not ok or not log:
        return None, None
    return E(d.n if isinstance(d, Arr) else d), value(X, log[-1], a)


def sgn(x):
    return E(D.n_fn("sign", x.n))


def linear_zero(f1, f2):
    """zero of a linear function known at 1 and 2"""
    return 1 - f1 / (f2 - f1)


def backlash(X, g1, g2, ring, a):
    """distance, and the backlash for which the search ends at a"""
    c = lambda v: E(D.num_const(v))
    d1, f1 = distance(X, g1, g2, ring, c(1.0), a)
    d2, f2 = distance(X, g1, g2, ring, c(2.0), a)
    if d1 is None or d2 is None:
        return None, None
    return d1, linear_zero(f1, f2)


def side(g1, g2):
    """ring pairs: sign of the operating angle, on the side where the teeth are thinner"""
    return -sgn(g2[0] * g2[1] - g1[0] * g1[1]) * sgn(g2[0] - g1[0])


def angle(g1, g2, ring):
    a = arctan(E(scalar("q", 0, "+")))
    return side(g1, g2) * a if ring else a


def law(g1, g2, ring, d):
    """backlash of a pair at a centre distance"""
    r, t, p = g1
    R, u, P = g2
    if ring:
        # both profiles are described by the same angles: the pinion tooth has to fit the tooth space of the ring
        a = side(g1, g2) * arccos((R - r) / d)
        return sgn(R * u - r * t) * ((tan(a) - a) * (R - r) + R * u - r * t) * 2
    a = arccos((r + R) / d)
    return (tan(a) - a) * (r + R) * 2 - (r * t + R * u) * 2 + R * P


def sc_inverse(rep, ring):
    X = context()
    g1, g2 = data("1."), data("2.")
    d = (g2[0] - g1[0] if ring else g1[0] + g2[0]) * (E(scalar("q", 0, "+")) + 1)
    ok, b = X.guard(lambda: X.call(fn(X, "backlash_from_ax_distance"), d.n, g1[0].n, g2[0].n, g1[1].n, g2[1].n, g2[2].n, inside_ring=T_(ring)))
    if not ok:
        return rep.unk("backlash_from_ax_distance")
    same(rep, "law", "backlash_from_ax_distance", b, law(g1, g2, ring, d), "%s pair at a given distance" % ("ring" if ring else "external"))
    a = angle(g1, g2, ring)
    d, B = backlash(X, g1, g2, ring, a)
    if d is None:
        return rep.unk("no root search in calc_involute_mesh_distance")
    ok, b = X.guard(lambda: X.call(fn(X, "backlash_from_ax_distance"), d.n, g1[0].n, g2[0].n, g1[1].n, g2[1].n, g2[2].n, inside_ring=T_(ring)))
    if ok:
        same(rep, "inverse", "backlash_from_ax_distance", b, B, "backlash of the distance computed for this backlash, %s pair" % ("ring" if ring else "external"))
    rep.engine(X)


def sc_law(rep, ring):
    X = context()
    g1, g2 = data("1."), data("2.")
    d, B = backlash(X, g1, g2, ring, angle(g1, g2, ring))
    if d is None:
        return rep.unk("no root search in calc_involute_mesh_distance")
    same(rep, "law", "calc_involute_mesh_distance", B, law(g1, g2, ring, d), "backlash at the distance computed for it")
    if not ring:
        # textbook: inv(aw) = inv(alpha) + 2 (x1 + x2) tan(alpha) / (z1 + z2)
        al, aw, x2 = arctan(E(scalar("p", 0, "+"))), arctan(E(scalar("q", 0, "+"))), E(scalar("x2"))
        z1, z2 = E(scalar("z1", 0, "+")), E(scalar("z2", 0, "+"))
        inv = lambda t: tan(t) - t
        x1 = (inv(aw) - inv(al)) * (z1 + z2) / (tan(al) * 2) - x2
        g = lambda z, x: (z / 2 * cos(al), 2 * O.PI / z / 4 + x * tan(al) * 2 / z + inv(al), 2 * O.PI / z)
        h1, h2 = g(z1, x1), g(z2, x2)
        d = (z1 + z2) / 2 * cos(al) / cos(aw)
        ok, b = X.guard(lambda: X.call(fn(X, "backlash_from_ax_distance"), d.n, h1[0].n, h2[0].n, h1[1].n, h2[1].n, h2[2].n))
        if ok:
            same(rep, "law", "backlash_from_ax_distance", b, E(D.num_const(0.0)), "profile shifted pair at its working distance")
    rep.engine(X)


def sc_swap(rep, ring):
    X = context()
    pb = E(scalar("pb", 0, "+"))
    g1, g2 = data("1.", pb), data("2.", pb)
    a = angle(g1, g2, ring)
    d, B = backlash(X, g1, g2, ring, a)
    if d is None:
        return rep.unk("no root search in calc_involute_mesh_distance")
    ok, b = X.guard(lambda: X.call(fn(X, "backlash_from_ax_distance"), (-d if ring else d).n, g2[0].n, g1[0].n, g2[1].n, g1[1].n, g1[2].n, inside_ring=T_(ring)))
    if not ok:
        return rep.unk("backlash_from_ax_distance")
    same(rep, "swap", "calc_involute_mesh_distance", b, B, "backlash at the same distance after exchanging the gears")
    rep.engine(X)


def sc_mesh(rep, c1, o1, c2, o2):
    X = context()
    p1, p2 = eff(c1, o1, "a."), eff(c2, o2, "b.")
    mk = lambda q, w: (q["m"] * q["N"] / 2 * cos(q["alpha"]), E(scalar(w + "theta", 0, "+")), 2 * O.PI / q["N"])
    h1, h2 = mk(p1, "a."), mk(p2, "b.")
    ring = inside(c1, o1) or inside(c2, o2)
    x = angle(h1, h2, ring)
    it, ia = X.cls("InvoluteTooth", "gearteeth"), X.cls("InvoluteUndercutTooth", "gearteeth")
    fa = {c.lookup("get_base_angle")[0] for c in (it, ia)}
    fr = {c.lookup("get_base_radius")[0] for c in (it, ia)}

    def one(**over):
        g, p, kw, _ = mesh(X, c1, o1, c2, o2)
        if "backlash" not in kw:
            raise Anchor("backlash of mesh_to of %s" % c1)
        kw.update(over)
        inner = X.I.call_hook

        def hook(f, env):
            if f in fa or f in fr:
                me = env.d[f.node.args.args[0].arg]
                who = "a." if any(l.startswith("a.") for l in X.get(me, "pitch_radius").deps) else "b."
                if f in fa:
                    return D.n_neg(scalar(who + "theta", 0, "+"))
                return D.n_mul(X.get(me, "pitch_radius"), D.n_fn("cos", X.get(me, "pressure_angle")))
            return inner(f, env)
        X.I.call_hook = hook
        log = solved(X, x)
        ok, _ = X.guard(lambda: X.meth(g, "mesh_to", p, **kw))
        X.I.solve_hook = X.I.call_hook = None
        if not ok or len(log) != 1:
            raise Anchor("one root search in mesh_to (%d)" % len(log))
        d = E(D.n_norm(D.n_sub(X.get(g, "gearcore.transform.center").n, X.get(p, "gearcore.transform.center").n)))
        return d, value(X, log[0], x), E(X.get(g, "gearcore.transform.angle"))
    c = D.num_const
    d, f1, _ = one(backlash=c(1.0))
    _, f2, _ = one(backlash=c(2.0))
    if ring:
        d = d * sgn(h2[0] - h1[0])
    same(rep, "mesh", "%s.mesh_to" % c1, linear_zero(f1, f2), law(h1, h2, ring, d), "backlash at the distance of the placed gears")
    _, _, a1 = one()
    _, _, a0 = one(angle_bias=c(0.0))
    same(rep, "mesh", "%s.mesh_to" % c1, a1 - a0, E(scalar("mesh.angle_bias")) / 2 * E(scalar("mesh.backlash", 1)) / h1[0], "phase shift by the bias")
    rep.engine(X)


def sc_loa(rep, i1, i2):
    """the lines of action touch both base circles"""
    X = context()
    profile_hook(X)
    v = G(X)
    g, p = [make(X, "InvoluteGear", {"cone": 0, "enable_undercut": 0, "inside_teeth": i}, w) for i, w in ((i1, "a."), (i2, "b."))]
    z = scalar("z_ratio")
    o = X.get(g, "gearcore.transform.orientation")
    X.I.setattr(X.get(p, "gearcore.transform"), "orientation", o)
    at = lambda x: X.meth(x, "center_point_at_z", X.meth(x, "p2z", z))
    q = [eff("InvoluteGear", {"cone": 0}, w) for w in ("a.", "b.")]
    r1, r2 = [x["m"] * x["N"] / 2 * cos(x["alpha"]) for x in q]
    ext = not (i1 or i2)
    inner, tips = X.I.call_hook, g.cls.lookup("addendum_radius")[0]
    tips = {tips, getattr(tips, "fget", None), getattr(tips, "f", None)} - {None}

    def hook(f, env):
        # tips lie outside the base circle
        if f in tips:
            a = env.d[f.node.args.args[0].arg] is g
            return ((r1 if a else r2) * (1 + E(scalar("tip.%d" % a, 0, "+")))).n
        return inner(f, env)
    X.I.call_hook = hook
    sep = (r1 + r2 if ext else O.abs_(r2 - r1)) / cos(arctan(E(scalar("q", 0, "+"))))
    ph = E(scalar("phi"))
    d = v.mm(o, Arr(M.assemble([(sep * cos(ph)).n, (sep * O.sin(ph)).n, D.num_const(0)])))
    X.I.setattr(X.get(p, "gearcore.transform"), "center", v.add(v.sub(at(g), v.sub(at(p), X.get(p, "gearcore.transform.center"))), d))
    c1, c2 = at(g), at(p)
    zax = v.z(o)
    ok, l = X.guard(lambda: X.meth(X.call(X.cls("LineOfAction"), g, p, z), "LOA_gen"))
    if not ok or not isinstance(l, TupleV):
        return rep.unk("line of action")
    ds = []
    w = "LineOfAction.LOA_gen"
    zero = E(D.num_const(0))
    dot = lambda a, b: E(v.dot(a, b))
    for k, c in enumerate(l.items):
        a, b = X.I.getattr(c, "p0"), X.I.getattr(c, "p1")
        t = v.unit(v.sub(b, a))
        ds.append((a, t))
        n = "line %d" % (k + 1)
        same(rep, "line", w, dot(t, zax), zero, n + " lies in the plane of the gears")
        for x, m, r in (("first", c1, r1), ("second", c2, r2)):
            e = v.sub(a, m)
            same(rep, "line", w, dot(e, zax), zero, n + " lies in the plane of the gears")
            h = E(v.dot(v.np("cross", t, e), zax))
            same(rep, "line", w, O.abs_(h), r, "%s touches the base circle of the %s gear" % (n, x))
        e1, e2 = [E(v.dot(v.np("cross", t, v.sub(a, m)), zax)) for m in (c1, c2)]
        s = sgn(e1) * sgn(e2)
        same(rep, "line", w, s, E(D.num_const(-1 if ext else 1)), "%s passes %s the centres" % (n, "between" if ext else "outside"))
    (a, t), (b, u) = ds
    dv = v.unit(d)
    same(rep, "line", w, dot(t, dv), dot(u, dv), "the two lines are mirror images")
    same(rep, "line", w, dot(t, v.np("cross", zax, dv)), -dot(u, v.np("cross", zax, dv)), "the two lines are mirror images")
    rep.engine(X)
