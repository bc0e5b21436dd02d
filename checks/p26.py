"""The body is assembled from all of its pieces, each at its place."""
import math
from .common import *
from . import oracle as O
from .oracle import E, same
from sa.scen import synth_profile
from sa.interp import StarV

EXPLAIN = ("the build of every class is interpreted for concrete tooth counts and arbitrary other parameters with three arbitrary slices; each object "
           "the CAD kernel returns remembers what it was made of, so the finished body is traced back to the patches, splines, circles, spheres "
           "and rotations it consists of; profiles carry the height of their slice as a label")
RULE = ("sides: for each tooth and each pair of neighbouring slices the shell has every piece of the profile, turned by tooth index times "
        "360/teeth, made of these two slices only; covers: one cover of the first, one of the last slice, each of one turned copy of the "
        "outline per tooth; ring: the outer ring and the covers of a ring gear share the radius teeth/2+outside_ring_coefficient and reach from the "
        "first to the last slice; blank: a bevel blank is bounded by the spheres and circles of its first and last slice; outline: the "
        "boundary wire has one copy of the profile per tooth; rack: as many teeth as asked, one pitch apart, one of them at the origin; body: "
        "the part is made of that body alone")
ASSUME = ["build123d builds what its constructors are given", "tooth counts 4, 5 and 7 stand for all: the loops over teeth are interpreted in full for them"]
B = "GearBuilder"
HT = {}


def slices(X):
    """profiles that carry the height of their slice"""
    cg = X.cls("Gear", "gggears_core").lookup("curve_gen_at_z")[0]

    def hook(f, env):
        if f is not cg:
            return None
        me, z = [env.d[f.node.args.args[i].arg] for i in (0, 1)]
        rec = X.call(X.I.getattr(me, "shape_recipe"), z)
        tr = X.I.getattr(rec, "transform")
        t = X.call(X.name("GearTransform"), center=X.get(tr, "center"), orientation=X.get(tr, "orientation"), scale=X.get(tr, "scale"), angle=X.get(tr, "angle"))
        n = z.n if isinstance(z, Arr) else z
        if isinstance(n, Num) and n.term is not None:
            HT["@" + T.show(n.term)] = n.term
        tag = "@" + (T.show(n.term) if isinstance(n, Num) and n.term is not None else "?")
        p = synth_profile(X, "prof:", frozenset([tag]), t)
        X.I.setattr(p, "pitch_angle", X.I.getattr(rec, "pitch_angle"))
        return p
    X.I.call_hook = hook


def tags(v):
    return frozenset(x for x in deps_of(v, 8) if x.startswith("@"))


def src(v):
    return v.a.get("src") if isinstance(v, ExtObj) else None


def items(v):
    if isinstance(v, TupleV):
        return list(v.items)
    if isinstance(v, ListV) and v.items is not None:
        return list(v.items)
    return None


class Lost(Exception):
    pass


def walk(v, turn=0.0):
    """(kind, object, turn in degrees) of the elementary shapes a kernel object is made of"""
    l = items(v)
    if l is not None:
        for x in l:
            yield from walk(x, turn)
        return
    s = src(v)
    if s is None:
        raise Lost(repr(v)[:60])
    op, recv, args, kw, w = s
    if op == "rotate":
        ax = args[0] if args else kw.get("axis")
        a = args[1] if len(args) > 1 else kw.get("angle")
        if not (isinstance(ax, Ext) and ax.path.endswith("Axis.Z")) or not isinstance(a, Num) or a.const is None:
            raise Lost("turn at " + w)
        yield from walk(recv, turn + float(a.const))
    elif op in ("make_bezier", "make_bezier_surface", "make_circle", "sweep", "make_sphere", "make_cone", "make_spline", "make_line", "make_cylinder", "make_box", "extrude"):
        yield op, v, turn
    elif op in ("Edge", "Part", "Wire", "Face", "Shell", "Solid", "Compound", "BasePartObject", "Add", "fuse", "make_surface", "clean", "fix", "Curve", "Sketch", "combine", "make_face"):
        if recv is not None:
            yield from walk(recv, turn)
        for x in list(args) + [kw[k] for k in kw if k not in ("tol", "glue")]:
            if isinstance(x, ExtObj) or items(x) is not None:
                yield from walk(x, turn)
            elif isinstance(x, StarV):
                raise Lost("spread at " + w)
    else:
        raise Lost("%s at %s" % (op, w))


def deg(x):
    return round(x % 360.0, 6) % 360.0


def pieces(X, b):
    """number of active pieces of the outline of one tooth"""
    p = X.get(b, "nurb_profile_stacks")
    st = items(items(p)[0])[0] if items(p) else None
    cs = X.meth(X.get(st, "profile"), "get_curves")
    n = 0
    for c in items(cs) or []:
        a = X.get(c, "active")
        if a.const is None:
            return None
        n += bool(a.const)
    return n or None


def faces(v):
    """the members of the shell of a body"""
    s = src(v)
    while s is not None and s[0] in ("Solid", "Shell", "fix", "clean", "Part", "BasePartObject"):
        x = s[1] if s[1] is not None else s[2][0] if s[2] else None
        if items(x) is not None:
            return items(x)
        s = src(x)
    return None


def only(v, op):
    try:
        return [x for x in walk(v) if x[0] == op]
    except Lost:
        return []


def sc_build(rep, c, o, n, nv, cut):
    X = context()
    X.I.prov = []
    cone = o.get("bevel")
    over = {"cone_angle": D.num_const(cone)} if cone else {}
    g = make(X, c, {k: v for k, v in o.items() if k != "bevel"}, number_of_teeth=D.num_const(n), **over)
    if cut:
        X.I.setattr(X.get(g, "gearcore.tooth_param"), "num_cutout_teeth", D.num_const(cut))
    zs = [T.show(z.term) for z in three_slices(X, g)]
    slices(X)
    ok, part = X.guard(lambda: X.meth(g, "build_part", n_vert=D.num_const(nv)))
    if not ok:
        return rep.unk("%s.build_part" % c)
    b = X.get(g, "builder")
    made = list(X.I.prov)
    X.I.prov = []
    what = "%s with %d teeth" % (c, n) + (", %d cut out" % cut if cut else "")
    want = sorted(deg(360.0 / n * j) for j in range(n - cut))
    ring = X.get(g, "gearcore.tooth_param.inside_teeth")
    ring = bool(ring.const) if isinstance(ring, Num) and ring.const is not None else None
    np_ = pieces(X, b)
    if cone:
        blank(rep, X, g, b, made, what, ring)
        shells = [x for x in made if src(x)[0] == "Shell"]
        if len(shells) != 1:
            return rep.unk("%s: shell of the flanks" % what)
        sides(rep, items(src(shells[0])[2][0]) or [], zs, want, np_, what, bevel=True)
        return rep.engine(X)
    solid = X.get(b, "solid")
    fs = faces(solid)
    if fs is None:
        return rep.unk("%s: shell of the body" % what)
    side, cover, rest = [], [], []
    for f in fs:
        try:
            kinds = {k for k, _, _ in walk(f)}
        except Lost as e:
            # some surface is made in a way that is not understood: nothing can be said to be missing
            rep.unk("%s: %s" % (what, e))
            return rep.engine(X)
        (side if kinds == {"make_bezier_surface"} else cover if "make_bezier" in kinds else rest).append(f)
    sides(rep, side, zs, want, np_, what)
    ro = E(D.num_const(n / 2)) - E(X.get(g, "gearcore.shape_recipe.limits.h_o"))
    covers(rep, X, cover, zs, want, np_, what, ring, ro)
    outer = [f for f in rest if src(f)[0] == "sweep"]
    if ring:
        if rest and not outer:
            rep.unk("%s: outer surface" % what)
        else:
            rep.check(len(outer) == 1, "ring", B, "%s: %d outer surfaces" % (what, len(outer)), what)
        for f in outer:
            ring_face(rep, X, f, ro, what)
    elif ring is False:
        rep.check(not rest, "sides", B, "%s: the shell has %d surfaces that are neither flank nor cover" % (what, len(rest)), what)
    # nothing else is in the part
    for nm in ("part", "part_transformed"):
        p = ask_(X, lambda: X.get(b, nm))
        if not isinstance(p, ExtObj) or src(p) is None:
            continue
        leafs = body(p)
        if leafs is None:
            rep.unk("%s.%s" % (B, nm))
            continue
        rep.check(leafs == [solid.uid], "body", "%s.%s" % (B, nm), "%s: the part is not made of the finished body alone" % what, what)
    rep.engine(X)


def body(v):
    """solids a part consists of"""
    l = items(v)
    if l is not None:
        r = []
        for x in l:
            y = body(x)
            if y is None:
                return None
            r += y
        return r
    s = src(v)
    if s is None:
        return None
    op, recv, args, kw, w = s
    if op in ("Solid", "split", "intersect", "Sub"):
        return [v.uid]
    if op in ("rotate", "translate", "scale", "move", "moved", "clean", "fix"):
        return body(recv)
    if op == "Mult":
        return body(args[1])
    if op in ("Part", "BasePartObject", "Add", "fuse", "Compound"):
        r = []
        for x in ([recv] if recv is not None else []) + list(args) + [x for x in kw.values() if isinstance(x, ExtObj)]:
            y = body(x)
            if y is None:
                return None
            r += y
        return r
    return None


def sides(rep, side, zs, want, np_, what, bevel=False):
    by = {}
    for f in side:
        try:
            l = list(walk(f))
        except Lost as e:
            return rep.unk("%s: %s" % (what, e))
        for k, v, t in l:
            if k == "make_bezier_surface":
                by.setdefault(deg(t), []).append(v)
    rep.check(sorted(by) == want, "sides", B, "%s: flanks at %s degrees, teeth at %s" % (what, sorted(by), want), what)
    pairs = None
    for t, l in sorted(by.items()):
        cnt = {}
        for v in l:
            tg = tags(v)
            cnt[tg] = cnt.get(tg, 0) + 1
        if pairs is None:
            pairs = cnt
            # neighbouring slices
            if len(cnt) != 2:
                rep.bad("sides", B, "%s: flanks of one tooth use %d different ranges of height instead of 2" % (what, len(cnt)))
                continue
            if not bevel:
                ends = [sorted(z for z in zs if "@" + z in tg) for tg in cnt]
                if all(ends):
                    rep.check(sorted(ends) == [zs[:2], zs[1:]], "sides", B, "%s: flanks reach from %s" % (what, ends), what)
                else:
                    rep.unk("%s: heights of the flanks" % what)
            else:
                reach(rep, list(cnt), zs, what)
            if np_ is not None:
                rep.check(set(cnt.values()) == {np_}, "sides", B, "%s: %s patches for an outline of %d pieces" % (what, sorted(cnt.values()), np_), what)
            else:
                rep.unk("%s: pieces of the outline" % what)
            # a piece is not used twice
            rep.check(len({sig(v) for v in l}) == len(l), "sides", B, "%s: a patch occurs twice on the same tooth" % what, what)
        else:
            rep.check(cnt == pairs, "sides", B, "%s: the tooth at %s degrees has other flanks than the first" % (what, t), what)


def reach(rep, pairs, zs, what):
    """the flanks of a bevel gear reach at least to the ends of its blank"""
    mid = "@" + zs[1]
    if not all(mid in p for p in pairs):
        return rep.bad("sides", B, "%s: the flanks do not meet at the middle slice" % what)
    z0, z2 = [scalar("zv%d" % i).term for i in (0, 2)]
    ends = []
    for p in pairs:
        if any(t not in HT for t in p):
            return rep.unk("%s: heights of the flanks" % what)
        # share of the first and the last slice in each height
        for t in p:
            co = dict(HT[t])
            a, b = co.pop(z0[0][0], 0.0), co.pop(z2[0][0], 0.0)
            if not co:
                ends.append((a, b))
    if any(abs(a + b - 1) > 1e-9 for a, b in ends) or not ends:
        return rep.unk("%s: heights of the flanks" % what)
    # position between the first (0) and the last slice (1)
    pos = [b for a, b in ends]
    rep.check(min(pos) <= 1e-9 and max(pos) >= 1 - 1e-9, "sides", B, "%s: the flanks reach from %.3g to %.3g of the height of the blank" % (what, min(pos), max(pos)), what)


def sig(v):
    op, recv, args, kw, w = src(v)
    return repr(leafterms(args))


def leafterms(v, d=6):
    l = v if isinstance(v, list) else items(v)
    if l is not None and d:
        return [leafterms(x, d - 1) for x in l]
    if isinstance(v, (ExtObj, Arr)) and v.n is not None:
        return v.n.term if v.n.term is not None else v.uid if isinstance(v, ExtObj) else id(v)
    if isinstance(v, Num):
        return v.term
    return id(v)


def covers(rep, X, cover, zs, want, np_, what, ring, ro):
    at = {}
    for f in cover:
        at.setdefault(tags(f), []).append(f)
    for z, nm in ((zs[0], "bottom"), (zs[2], "top")):
        l = at.pop(frozenset(["@" + z]), [])
        if any("@?" in t for t in at):
            rep.unk("%s: height of the %s cover" % (what, nm))
            continue
        if not rep.check(len(l) == 1, "covers", B, "%s: %d covers of the %s slice" % (what, len(l), nm), what):
            continue
        turns = {}
        for k, v, t in walk(l[0]):
            if k == "make_bezier":
                turns.setdefault(deg(t), []).append(v.uid)
        rep.check(sorted(turns) == want, "covers", B, "%s: outline of the %s cover at %s degrees, teeth at %s" % (what, nm, sorted(turns), want), what)
        rep.check(len({tuple(x) for x in turns.values()}) == 1, "covers", B, "%s: the teeth of the %s cover differ" % (what, nm), what)
        if np_ is not None and turns:
            rep.check({len(x) for x in turns.values()} == {np_}, "covers", B, "%s: the %s cover has %s pieces per tooth, the outline %d" % (what, nm, sorted({len(x) for x in turns.values()}), np_), what)
        circ = [v for k, v, t in walk(l[0]) if k == "make_circle"]
        if ring:
            rep.check(len(circ) == 1, "ring", B, "%s: the %s cover has %d outer circles" % (what, nm, len(circ)), what)
            for v in circ:
                op, recv, args, kw, w = src(v)
                r = args[0] if args else kw.get("radius")
                same(rep, "ring", "%s radius of the %s cover" % (B, nm), r, ro, what)
                h = plane_z(args[1] if len(args) > 1 else kw.get("plane"))
                if h is None:
                    rep.unk("%s: plane of the %s circle" % (what, nm))
                else:
                    same(rep, "ring", "%s height of the %s cover" % (B, nm), h, O.s(z.split("|")[-1]), what)
        elif ring is False:
            rep.check(not circ, "covers", B, "%s: the %s cover of an external gear has a circle" % (what, nm), what)
    rep.check(not at, "covers", B, "%s: covers of slices that are not the ends" % what, what)




def plane_z(p):
    if p is None or isinstance(p, Ext) and p.path.endswith("Plane.XY"):
        return D.num_const(0)
    s = src(p)
    if s is not None and s[0] == "offset" and isinstance(s[1], Ext) and s[1].path.endswith("Plane.XY"):
        return s[2][0] if s[2] else s[3].get("amount")
    if s is not None and s[0] == "offset" and s[1] is None and s[2]:
        return s[2][-1]
    return None


def ring_face(rep, X, f, ro, what):
    op, recv, args, kw, w = src(f)
    prof = kw.get("profile", args[0] if args else None)
    path = kw.get("path", args[1] if len(args) > 1 else None)
    s = src(path)
    if s is None or s[0] != "make_circle":
        return rep.unk("%s: path of the outer ring" % what)
    r = s[2][0] if s[2] else s[3].get("radius")
    same(rep, "ring", "%s radius of the outer ring" % B, r, ro, what)
    s = src(prof)
    pts = None
    if s is not None and s[0] in ("Line", "make_line", "Polyline"):
        pts = items(s[2][0]) if len(s[2]) == 1 else list(s[2])
    ends = [ends_of(p) for p in pts or []]
    if len(ends) != 2 or None in ends:
        return rep.unk("%s: generator of the outer ring" % what)
    zz = [e[2] for e in ends]
    for e in ends:
        d = E(e[0]) * E(e[0]) + E(e[1]) * E(e[1])
        same(rep, "ring", "%s outer ring" % B, d.n, ro * ro, what)
    lo, hi = O.s("zv0"), O.s("zv2")
    got = [z.term for z in zz]
    rep.check(None not in got and {got[0], got[1]} == {lo.n.term, hi.n.term} if exact(got[0]) and exact(got[1]) else True, "ring", "%s height of the outer ring" % B,
              "%s: the outer ring reaches from %s to %s" % (what, T.show(got[0]) if got[0] is not None else "?", T.show(got[1]) if got[1] is not None else "?"), what)


def ends_of(p):
    """coordinates of a kernel vector"""
    s = src(p)
    if s is not None and s[0] == "Vector":
        l = items(s[2][0]) if len(s[2]) == 1 else list(s[2])
    else:
        l = items(p)
    if l is None or len(l) != 3 or not all(isinstance(x, Num) for x in l):
        return None
    return l


def blank(rep, X, g, b, made, what, ring):
    """the spheres and the cone of a bevel blank"""
    z = [scalar("zv0"), scalar("zv2")]
    tr = X.call(X.name("GearTransform"))
    flat = X.meth(g, "copy")
    fc = X.get(flat, "gearcore")
    X.I.setattr(fc, "transform", tr)
    sph = []
    for v in made:
        if src(v)[0] != "translate":
            continue
        s, ctr = src(v)[1], src(v)[2][0] if src(v)[2] else None
        while src(s) is not None and src(s)[0] == "rotate":
            s = src(s)[1]
        if src(s) is not None and src(s)[0] == "make_sphere":
            sph.append((src(s)[3].get("radius", src(s)[2][0] if src(s)[2] else None), ctr))
    if len(sph) != 2:
        rep.unk("%s: spheres of the blank (%d)" % (what, len(sph)))
    else:
        for i, (r, c) in enumerate(sph):
            d = ask_(X, lambda: X.meth(fc, "sphere_data_at_z", z[i]))
            e = items(d) if d is not None else None
            if e is None or not isinstance(r, Num):
                rep.unk("%s: sphere %d" % (what, i))
                continue
            nm = ("bottom", "top")[i]
            same(rep, "blank", "%s %s sphere" % (B, nm), D.n_mul(r, r), E(e[1]) * E(e[1]), "%s: squared radius of the %s sphere" % (what, nm))
            same(rep, "blank", "%s %s sphere" % (B, nm), c, E(e[0].n if isinstance(e[0], Arr) else e[0]), "%s: centre of the %s sphere" % (what, nm))
    cones = [v for v in made if src(v)[0] == "make_cone"]
    if len(cones) != 1:
        rep.unk("%s: cone of the blank (%d)" % (what, len(cones)))
    else:
        op, recv, args, kw, w = src(cones[0])
        pos = dict(zip(("base_radius", "top_radius", "height", "plane"), args))
        pos.update(kw)
        for k, zi in (("base_radius", 0), ("top_radius", 2)):
            tg = tags(pos[k]) if k in pos else frozenset()
            if not tg or "@?" in tg:
                rep.unk("%s: %s of the cone" % (what, k))
                continue
            rep.check(tg == {"@" + T.show(scalar("zv%d" % zi).term)}, "blank", "%s %s" % (B, k), "%s: %s of the blank is taken from slice %s" % (what, k, sorted(tg)), what)
        h = pos.get("height")
        if h is not None:
            tg = tags(h)
            rep.check(tg == {"@" + T.show(scalar("zv%d" % i).term) for i in (0, 2)}, "blank", "%s height" % B, "%s: height of the blank is taken from slices %s" % (what, sorted(tg)), what)
        tg = tags(pos["plane"]) if "plane" in pos else frozenset()
        if tg:
            rep.check(tg == {"@" + T.show(scalar("zv0").term)}, "blank", "%s base plane" % B, "%s: the blank stands on slice %s" % (what, sorted(tg)), what)


def sc_outline(rep, c, o, n):
    """the boundary wire"""
    X = context()
    g = make(X, c, o, number_of_teeth=D.num_const(n))
    three_slices(X, g)
    slices(X)
    inner = X.I.call_hook
    gt = X.cls("GearTransform", "gggears_base_classes")
    call = gt.lookup("__call__")[0]
    log = []

    def hook(f, env):
        if f is call:
            me = env.d[f.node.args.args[0].arg]
            if isinstance(me, Instance):
                a = X.get(me, "angle")
                log.append(a.n if isinstance(a, Arr) else a)
        return inner(f, env)
    X.I.call_hook = hook
    X.I.prov = []
    ok, w = X.guard(lambda: X.meth(g, "build_boundary_wire", scalar("ratio")))
    if not ok or src(w) is None:
        return rep.unk("%s.build_boundary_wire" % c)
    what = "%s with %d teeth" % (c, n)
    try:
        l = [v for k, v, t in walk(w) if k == "make_bezier"]
    except Lost as e:
        return rep.unk("%s: %s" % (what, e))
    rep.check(l and len(l) % n == 0, "outline", "%s.build_boundary_wire" % c, "%s: %d splines in the outline" % (what, len(l)), what)
    a0 = X.get(g, "gearcore.transform.angle")
    a0 = a0.n if isinstance(a0, Arr) else a0
    want = [E(a0) + E(D.num_const(2 * math.pi / n * j)) for j in range(n)]
    if any(not isinstance(a, Num) or not exact(a.term) for a in log) or not log:
        rep.unk("%s: turns of the outline" % what)
    else:
        for j, wv in enumerate(want):
            hit = [a for a in log if rint.eq(a.term, wv.n.term)]
            rep.check(hit, "outline", "%s.build_boundary_wire" % c, "%s: no copy of the outline at tooth %d" % (what, j), what)
    rep.engine(X)


def sc_rack(rep, c, o, n):
    X = context()
    X.I.prov = []
    g = make(X, c, o, placed=False, number_of_teeth=D.num_const(n), root_fillet=D.num_const(0), tip_fillet=D.num_const(0))
    ok, _ = X.guard(lambda: X.meth(g, "build_part"))
    if not ok:
        return rep.unk("%s.build_part" % c)
    made = list(X.I.prov)
    what = "%s with %d teeth" % (c, n)
    grids = [v for v in made if src(v)[0] == "GridLocations"]
    shift = [v for v in made if src(v)[0] == "Pos"]
    if len(grids) != 1 or len(shift) != 1:
        return rep.unk("%s: arrangement of the teeth" % what)
    args, kw = src(grids[0])[2:4]
    pos = dict(zip(("x_spacing", "y_spacing", "x_count", "y_count"), args))
    pos.update(kw)
    try:
        dy, nx, ny = [float(pos[k].const) for k in ("y_spacing", "x_count", "y_count")]
    except Exception:
        return rep.unk("%s: grid of the teeth" % what)
    rep.check(nx * ny == n, "rack", "%s.build_part" % c, "%s: %d teeth are drawn" % (what, nx * ny), what)
    rep.check(abs(dy - math.pi) < 1e-9, "rack", "%s.build_part" % c, "%s: teeth are %s modules apart" % (what, dy), what)
    a = src(shift[0])[2]
    p = a[0] if a else None
    l = items(p)
    if l is None and isinstance(p, Arr):
        l = list(p.n.elems or [])
    if not l or len(l) != 3 or not all(isinstance(x, Num) and x.const is not None for x in l):
        return rep.unk("%s: shift of the teeth" % what)
    s = float(l[1].const)
    rep.check(any(abs((i - (ny - 1) / 2) * dy + s) < 1e-9 for i in range(int(ny))), "rack", "%s.build_part" % c, "%s: no tooth at the origin of the rack" % what, what)
    rep.engine(X)


def scenarios(tier):
    out = []
    counts = (4, 5, 7) if tier == "thorough" else (5,)
    for n, c, o in configs(tier):
        if o.get("enable_undercut"):
            continue
        if c == "BevelGear" or c in ("InvoluteGear", "CycloidGear") and "cone" not in o:
            o = dict(o, bevel=0.7)
        for k in counts:
            for nv in (2, 4) if tier == "thorough" or c in ("HelicalRingGear", "BevelGear") and not o.get("herringbone") else (2,):
                out.append(("build %s z=%d nv=%d" % (n, k, nv), "sc_build", (c, o, k, nv, 0)))
            if "bevel" not in o:
                out.append(("outline %s z=%d" % (n, k), "sc_outline", (c, o, k)))
        out.append(("build %s cut" % n, "sc_build", (c, o, 7, 2, 3)))
    # tooth counts for which dividing the full turn by the pitch angle falls below the count
    for k in (25, 41) if tier == "thorough" else (25,):
        out.append(("outline SpurGear z=%d" % k, "sc_outline", ("SpurGear", {"enable_undercut": 0}, k)))
    for n, c, o in configs(tier, RACKS):
        for k in (1, 2, 4, 5):
            out.append(("rack %s z=%d" % (n, k), "sc_rack", (c, o, k)))
    return out
