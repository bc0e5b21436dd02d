"""The axial range is honoured: anchor, height, slices and ratios."""
from .common import *
from .facts import core_gear
from . import oracle as O
from .oracle import E, same, eff, cos

EXPLAIN = ("slice heights of every class are computed symbolically for arbitrary height, anchor, helix and module; every report that "
           "names the bottom, middle or top, or takes a ratio, is evaluated on a gear with three arbitrary slices and compared with the "
           "report at that height; the heights at which the CAD conversion evaluates the profile are recorded per slice pair")
RULE = ("ends: first slice = -anchor*height/module, last slice = (1-anchor)*height/module, herringbone mid slice = their mean, slices "
        "added for twist keep both ends; ratio: proportion_to_z(0), (1), (t) = z0, z1, linear; level: bottom/middle/top report = report "
        "at z0, (z0+z1)/2, z1; stack: the solid between two slices is sampled from the lower to the upper slice inclusive")
ASSUME = ["numpy.linspace, insert, unique, searchsorted as documented", "height, module and tooth count are positive"]
AT = {
    "center_location_bottom": ("center_location_at_z", 0), "center_location_middle": ("center_location_at_z", 0.5),
    "center_location_top": ("center_location_at_z", 1), "center_point_bottom": ("center_point_at_z", 0),
    "center_point_middle": ("center_point_at_z", 0.5), "center_point_top": ("center_point_at_z", 1),
    "radii_data_bottom": ("radii_data_gen", 0), "radii_data_top": ("radii_data_gen", 1),
    "cone_angle_limits_bottom": ("cone_angles_at_z", 0), "cone_angle_limits_top": ("cone_angles_at_z", 1),
}


def sc_ends(rep, c, o):
    X = context()
    g = make(X, c, o)
    p = eff(c, o)
    zh = p["H"] / p["m"]
    zm, zM = 0 - zh * p["anchor"], zh * (1 - p["anchor"])
    zv = X.get(g, "gearcore.z_vals")

    def at(i):
        return M.getitem(X.I, zv, D.num_const(i))
    same(rep, "ends", "%s first slice" % c, at(0), zm, "bottom slice at -anchor*height")
    same(rep, "ends", "%s last slice" % c, at(-1), zM, "top slice at (1-anchor)*height")
    for r, w in ((0, zm), (1, zM)):
        for n in ("proportion_to_z", "p2z"):
            same(rep, "ratio", "%s.%s(%d)" % (c, n, r), X.meth(g, n, D.num_const(r)), w)
    same(rep, "ratio", "%s.proportion_to_z" % c, X.meth(g, "proportion_to_z", scalar("t")), zm + O.s("t") * zh)
    # the reference level contains the centre
    v = ask_(X, lambda: X.meth(g, "center_point_at_z", D.num_const(0)))
    if v is not None:
        same(rep, "level", "%s.center_point_at_z(0)" % c, v, p["center"], "the reference level contains the gear centre")
    if zv.n.elems:
        k = len(zv.n.elems)
        for i in range(1, k - 1):
            if o.get("herringbone") and k == 3:
                same(rep, "ends", "%s middle slice" % c, at(i), (zm + zM) / 2)
    rep.engine(X)


def sc_levels(rep, c, o):
    X = context()
    g = make(X, c, o)
    zs = [E(z) for z in three_slices(X, g)]
    profile_hook(X)
    level = {0: zs[0], 0.5: (zs[0] + zs[2]) * 0.5, 1: zs[2]}
    for n, (m, l) in AT.items():
        if g.cls.lookup(n)[0] is None or g.cls.lookup(m)[0] is None:
            rep.unk("report %s" % n)
            continue
        a = ask_(X, lambda: X.I.getattr(g, n))
        b = ask_(X, lambda: X.meth(g, m, level[l].n))
        if a is None or b is None:
            continue
        agree(rep, "level", "%s.%s" % (c, n), a, b, "compared with %s at that height" % m)
    for t in (0, 0.5, 1):
        v = X.meth(g, "proportion_to_z", D.num_const(t))
        same(rep, "ratio", "%s.proportion_to_z(%s)" % (c, t), v, level[t])
    for n in ("circle_involute_base",):
        if g.cls.lookup(n)[0] is None:
            continue
        for t in (0, 1):
            a = ask_(X, lambda: X.meth(g, n, D.num_const(t)))
            if a is None:
                continue
            ctr = ask_(X, lambda: X.I.getattr(a, "center"))
            b = ask_(X, lambda: X.meth(g, "center_point_at_z", level[t].n))
            if ctr is not None and b is not None:
                agree(rep, "level", "%s.%s(%d)" % (c, n, t), ctr, b, "centre of the base circle compared with the slice centre")
    # boundary wire at a ratio is the outline of that slice
    h = ask_(X, lambda: X.I.getattr(g, "z_height"))
    if h is not None:
        a, b = [ask_(X, lambda: X.meth(g, "center_point_at_z", level[t].n)) for t in (0, 1)]
        if a is not None and b is not None:
            d = E(D.n_norm((E(b.n) - E(a.n)).n))
            same(rep, "level", "%s.z_height" % c, h, d, "distance of the top and bottom slice centres")
    rep.engine(X)


def heights(X):
    """record the heights at which profiles are generated"""
    cg = X.cls("Gear", "gggears_core").lookup("curve_gen_at_z")[0]
    log = []
    profile_hook(X)
    inner = X.I.call_hook

    def hook(f, env):
        if f is cg:
            log.append(env.d[f.node.args.args[1].arg])
        return inner(f, env)
    X.I.call_hook = hook
    return log


def sc_wire(rep, c, o):
    X = context()
    g = make(X, c, o)
    zs = [E(z) for z in three_slices(X, g)]
    for r, w in ((0, zs[0]), (1, zs[2]), (None, zs[0] + O.s("t") * (zs[2] - zs[0]))):
        log = heights(X)
        if ask_(X, lambda: X.meth(g, "build_boundary_wire", D.num_const(r) if r is not None else scalar("t"))) is None and not log:
            rep.unk("%s.build_boundary_wire" % c)
            continue
        for z in log:
            same(rep, "ratio", "%s.build_boundary_wire" % c, z, w, "height of the outline for ratio %s" % r)
    rep.engine(X)


def sc_stack(rep, cone, n):
    """heights used by the CAD conversion"""
    X = context()
    core = core_gear(X, "", cone)
    zs = [scalar("zv0"), scalar("zv1"), scalar("zv2")]
    X.I.setattr(core, "z_vals", Arr(M.assemble(zs)))
    log = heights(X)
    conv = X.cls("GearToNurbs", "gggears_convert")
    o = Instance(conv)
    for k, v in dict(gear=core, z_vals=X.I.getattr(core, "z_vals"), n_points_hz=D.num_const(4), n_points_vert=D.num_const(n),
                     oversamp_ratio=D.num_const(1), n_z_tweens=D.num_const(n)).items():
        o.d[k] = v
    st = ask_(X, lambda: X.meth(o, "generate_gear_stacks"))
    if st is None or len(log) != 2 * n:
        rep.unk("generate_gear_stacks: heights (%d calls)" % len(log))
        return
    for i in (0, 1):
        part = log[i * n:(i + 1) * n]
        same(rep, "stack", "GearToNurbs.generate_gear_stacks", part[0], E(zs[i]), "first height of slice pair %d" % i)
        same(rep, "stack", "GearToNurbs.generate_gear_stacks", part[-1], E(zs[i + 1]), "last height of slice pair %d" % i)
        for k in range(1, n - 1):
            f = k / (n - 1)
            same(rep, "stack", "GearToNurbs.generate_gear_stacks", part[k], E(zs[i]) * (1 - f) + E(zs[i + 1]) * f)
    rep.engine(X)


def sc_rack(rep, c, o):
    """extrusion height of a rack"""
    X = context()
    g = make(X, c, o, placed=False, root_fillet=D.num_const(0), tip_fillet=D.num_const(0))
    log = []

    def hook(short, args, kw, where):
        if short == "extrude":
            log.append((args, kw, where))
    X.I.kernel_hook = hook
    X.guard(lambda: X.meth(g, "build_part"))
    tot = None
    for args, kw, where in log:
        d = kw.get("dir", kw.get("direction"))
        if d is None:
            rep.unk("extrusion at %s" % where)
            return
        d = E(D.n_matmul(O.e(2).n, d.n if isinstance(d, Arr) else d))
        a = kw.get("amount")
        if a is not None:
            d = d * E(a)
        tot = d if tot is None else tot + d
    if tot is None:
        rep.unk("%s: no extrusion found" % c)
        return
    b = O.s("helix_angle" if c == "HelicalRack" else "beta_angle")
    m = O.s("module") / (cos(b) if c == "HelicalRack" else E(D.num_const(1)))
    same(rep, "ends", "%s extrusion height" % c, tot, O.s("height") / m, "axial extent of the unscaled rack")
    rep.engine(X)


def scenarios(tier):
    out = []
    for n, c, o in configs(tier):
        out += [("ends " + n, "sc_ends", (c, o)), ("levels " + n, "sc_levels", (c, o)), ("wire " + n, "sc_wire", (c, o))]
    for n, c, o in configs(tier, RACKS):
        out.append(("rack " + n, "sc_rack", (c, o)))
    for cone in (0, None):
        for n in (2, 4, 5):
            out.append(("stack cone=%s n=%d" % (cone, n), "sc_stack", (cone, n)))
    return out
