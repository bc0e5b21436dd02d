"""Profile conversions keep every segment's role."""
import math
from . import curves as C
from .common import *
from .p13 import at, ends, where, pieces, cmp
from sa.flat import nterm
from sa import rint, terms as T, domains as D, models as M

EXPLAIN = ("abstract interpretation of the extension, the NURBS conversion, the outlines and the repeated boundary of a tooth profile "
           "with symbolic radii, angles and placement, for cylindrical and conical profiles and plain, chained and trimmed flanks; the "
           "ends of every segment are compared as real-valued terms")
RULE = ("role: a segment of the converted profile has the ends of the segment of the same role, moved once by the profile's transform, "
        "and the result's own transform is neutral; extend: the extension keeps the five segments, the pitch angle and the transform, and "
        "each connector joins the ends it is named after; joints: each segment of an outline begins where the previous one ends, and "
        "closed outlines end where they begin; order: an outline visits its segments in the documented order; repeat: the boundary is the "
        "profile turned by whole pitches and placed once")
ASSUME = ["scipy.optimize results are arbitrary numbers", "length approximation is analysed at 5 instead of 21 samples",
          "the profile handed in is continuous and symmetric to the x-z plane, its points lie on one sphere when the cone angle is not 0"]
FLANKS = ["line", "chain", "chain with inactive piece", "trimmed involute"]
OUTLINES = ["profile_closed", "tooth_profile_closed", "tooth_profile_closed_outer", "tooth_profile_closed_ring"]
FIVE = ["ra_curve", "rd_curve", "ro_curve", "tooth_curve", "tooth_curve_mirror"]


def scenarios(tier):
    out = []
    for cone in ("cylinder", "cone"):
        for fl in FLANKS:
            n = "%s, flank %s" % (cone, fl)
            if cone == "cylinder" or fl != "trimmed involute":
                out.append((n + ": extension", "sc_extend", (cone, fl)))
            for ext in (0, 1):
                for pad in (0, 1):
                    if cone == "cone" and fl == "trimmed involute":
                        continue
                    out.append(("%s: to nurb%s%s" % (n, " extended" if ext else "", " padded" if pad else ""), "sc_nurb", (cone, fl, ext, pad)))
            if cone == "cylinder" or fl != "trimmed involute":
                out.append((n + ": boundary", "sc_boundary", (cone, fl)))
    return out


def build_profile(X, cone, flank):
    """an arbitrary continuous, symmetric profile: rd, tooth, ra, mirrored tooth, and the ring ro"""
    I = X.I
    k = D.num_const
    mul, add, sub = D.n_mul, D.n_add, D.n_sub
    npx = lambda f, *a: X.call(I.getattr(X.name("np"), f), *a)
    pitch = scalar("pitch_angle", 0, "+")
    at_, aa = mul(pitch, k(0.3125)), mul(pitch, k(0.125))
    if cone == "cylinder":
        cd = X.call(X.name("ConicData"), cone_angle=D.num_const(0), base_radius=scalar("base_radius", 1, "+"))
        rad = {n: scalar(n, 1, "+") for n in ("r_d", "r_a", "r_o")}
        z = {n: D.num_const(0) for n in rad}
    else:
        cd = X.call(X.name("ConicData"), cone_angle=scalar("cone_angle", 0, "+"), base_radius=scalar("base_radius", 1, "+"))
        ctr = I.getattr(cd, "center")
        h = M.getitem(I, ctr, k(2))
        S = scalar("sphere", 1, "+")
        rad, z = {}, {}
        for n in ("r_d", "r_a", "r_o"):
            th = scalar("theta_" + n, 0, "+")
            rad[n] = mul(S, npx("sin", th))
            z[n] = sub(h, mul(S, npx("cos", th)))

    def pol(n, ang):
        return npx("array", ListV([mul(rad[n], npx("cos", ang)), mul(rad[n], npx("sin", ang)), z[n]]))

    def arc(n, a0, a1):
        c = npx("array", ListV([D.num_const(0), D.num_const(0), z[n]]))
        return X.call(X.name("ArcCurve", "curve"), radius=rad[n], angle=sub(a1, a0), center=c, yaw=a0)
    neg = lambda a: sub(k(0), a)
    line = lambda a, b: X.call(X.name("LineCurve", "curve"), p0=a, p1=b)
    p0, p1 = pol("r_d", neg(at_)), pol("r_a", neg(aa))
    if flank == "line":
        tooth = line(p0, p1)
    elif flank.startswith("chain"):
        q, r = C.vec("flank.q"), C.vec("flank.r")
        ps = [line(p0, q), line(q, r), line(r, p1)]
        if "inactive" in flank:
            ps.insert(1, X.call(X.name("LineCurve", "curve"), p0=q, p1=r, active=T_(0)))
        tooth = X.call(X.name("CurveChain", "curve"), *ps)
    else:
        tooth = C.treat(X, C.mk(X, "InvoluteCurve", "flank."), "trimmed", "flank.")
        p0, p1 = None, None
    mir = X.call(X.name("MirroredCurve", "curve"), tooth, plane_normal=X.name("UP"))
    X.meth(mir, "reverse")
    tr = C.transform(X, "pl.")
    prof = X.call(X.name("GearRefProfile"), ra_curve=arc("r_a", neg(aa), aa), rd_curve=arc("r_d", sub(at_, pitch), neg(at_)),
                  ro_curve=arc("r_o", sub(at_, pitch), at_), tooth_curve=tooth, tooth_curve_mirror=mir, pitch_angle=pitch, transform=tr)
    if p0 is not None:
        X.known = dict(tip=pol("r_a", mul(pitch, k(-0.5))), root=pol("r_d", k(0)), split=pol("r_o", neg(at_)))
        solved(X)
    return prof, cd, p0 is not None


def solved(X):
    """the ring is cut by the plane through the axis and the tooth's start at 0.375 of its length in this profile"""
    inner = X.I.call_hook
    state = {"busy": False}

    def hook(g, env):
        if inner is not None:
            r = inner(g, env)
            if r is not None:
                return r
        if g.qual.split(".")[-1] != "find_curve_plane_intersect" or state["busy"]:
            return None
        c, n = env.d.get("curve"), env.d.get("plane_normal")
        if not isinstance(c, Instance) or not isinstance(n, (Num, Arr)):
            return None
        state["busy"] = True
        try:
            v = ask_(X, lambda: X.I.binop("MatMult", at(X, c, 0.375), n))
            o = ask_(X, lambda: X.I.binop("MatMult", at(X, c, 0.75), n))
            if v is None or nterm(v) is None or o is None or rint.eq(nterm(v), T.ZERO) is not True or rint.eq(nterm(o), T.ZERO) is not False:
                return None
        finally:
            state["busy"] = False
        r = ExtObj("OptimizeResult", D.num_const(0))
        r.a["x"] = X.call(X.I.getattr(X.name("np"), "array"), ListV([D.num_const(0.375)]))
        r.a["success"] = D.num_const(1)
        return r
    X.I.call_hook = hook


def curves_of(X, p):
    """names of the segments of a profile"""
    return [n for n, v in p.d.items() if isinstance(v, Instance) and any(k.name == "Curve" for k in v.cls.mro)]


def chain_parts(X, c):
    """the members of a chain; a single curve is its own part"""
    if any(k.name == "CurveChain" for k in c.cls.mro) and "curves" in c.d:
        return pieces(X, c)
    return [c]


def flat(X, c):
    out = []
    for p in chain_parts(X, c) or []:
        if p is c:
            out.append(p)
        else:
            out += flat(X, p)
    return out


def joints(rep, X, ch, name, what, closed):
    """consecutive active parts touch"""
    ps = chain_parts(X, ch)
    if not ps or len(ps) < 2:
        return rep.unk("parts of %s %s" % (name, what))
    es = [ends(X, p) for p in ps]
    n = len(ps)
    for i in range(n if closed else n - 1):
        cmp(rep, "joints", name, es[i][1], es[(i + 1) % n][0], "%s: end of part %d and start of part %d" % (what, i, (i + 1) % n))


#: the documented order of each outline: (role, start role end, ...) checked through the ends of the parts
ORDER = {
    "profile": [("rd_curve", 0), ("tooth_curve", 0), ("ra_curve", 0), ("tooth_curve_mirror", 0)],
    "profile_closed": [("rd_curve", 0), ("tooth_curve", 0), ("ra_curve", 0), ("tooth_curve_mirror", 0), ("ro_connector_2", 1), ("ro_curve", 1),
                       ("ro_connector_0", 0)],
    "tooth_profile_closed": [("tooth_curve", 0), ("ra_curve", 0), ("tooth_curve_mirror", 0), ("rd_connector", 1)],
    "tooth_profile_closed_ring": [("tooth_curve", 0), ("ra_curve", 0), ("tooth_curve_mirror", 0), ("ro_connector_2", 1), ("ro_curve_tooth", 1),
                                  ("ro_connector_1", 0)],
}


def outlines(rep, X, p, what, names):
    for n in names:
        if p.cls.lookup(n)[0] is None:
            rep.unk(n)
            continue
        w = "%s.%s" % (p.cls.name, n)
        ch = ask_(X, lambda: X.I.getattr(p, n))
        if not isinstance(ch, Instance):
            rep.unk("%s of %s" % (n, what))
            continue
        joints(rep, X, ch, w, what, n != "profile")
        ps = chain_parts(X, ch)
        if n in ORDER and ps and len(ps) == len(ORDER[n]):
            for (role, rev), q in zip(ORDER[n], ps):
                src = ask_(X, lambda: X.I.getattr(p, role))
                if not isinstance(src, Instance):
                    rep.unk(role)
                    continue
                a, b = ends(X, src), ends(X, q)
                for k in (0, 1):
                    cmp(rep, "order", w, b[k], a[k ^ rev], "%s: end %d of the part from %s" % (what, k, role))
        elif n in ORDER:
            rep.unk("order of %s" % n)


def sc_extend(rep, cone, flank):
    X = C.few(context())
    p, cd, cont = build_profile(X, cone, flank)
    what = "%s, flank %s" % (cone, flank)
    before = {n: ends(X, X.I.getattr(p, n)) for n in FIVE}
    if cont:
        outlines(rep, X, p, what, ["profile"])
    e = X.meth(X.name("GearRefProfileExtended"), "from_refprofile", p, cd)
    if not isinstance(e, Instance):
        return rep.unk("extension")
    W = "generate_profile_extensions"
    for n in FIVE:
        got = ends(X, X.I.getattr(e, n))
        for k in (0, 1):
            cmp(rep, "extend", W, got[k], before[n][k], "%s: %s, end %d" % (what, n, k))
    cmp(rep, "extend", W, X.I.getattr(e, "pitch_angle"), X.I.getattr(p, "pitch_angle"), what + ": pitch angle")
    q = C.vec("probe")
    cmp(rep, "extend", W, ask_(X, lambda: X.call(X.I.getattr(e, "transform"), q)), ask_(X, lambda: X.call(X.I.getattr(p, "transform"), q)),
        what + ": transform")
    if cont:
        b = before
        rot = lambda v, a: X.call(X.name("rotate_vector", "gggears_core"), v, a)
        pitch = X.I.getattr(p, "pitch_angle")
        full = {"ro_connector_0": (b["ro_curve"][0], b["rd_curve"][0]), "ro_connector_2": (b["ro_curve"][1], b["tooth_curve_mirror"][1]),
                "rd_connector": (b["tooth_curve"][0], b["tooth_curve_mirror"][1]),
                "ra_connector": (ask_(X, lambda: rot(b["ra_curve"][1], D.n_neg(pitch))), b["ra_curve"][0]),
                "ro_connector_1": (None, b["tooth_curve"][0]), "ro_curve_dedendum": (b["ro_curve"][0], None),
                "ro_curve_tooth": (None, b["ro_curve"][1])}
        got = {}
        for n, w in full.items():
            got[n] = ends(X, X.I.getattr(e, n))
            for k in (0, 1):
                if w[k] is not None:
                    cmp(rep, "extend", W, got[n][k], w[k], "%s: %s, end %d" % (what, n, k))
        cmp(rep, "extend", W, got["ro_connector_1"][0], got["ro_curve_tooth"][0], what + ": the ring is split where connector 1 meets it")
        cmp(rep, "extend", W, got["ro_curve_dedendum"][1], got["ro_curve_tooth"][0], what + ": the ring is split at one point")
        mid = ask_(X, lambda: at(X, X.I.getattr(e, "ra_curve"), 0.5))
        cl = ends(X, X.I.getattr(e, "tooth_centerline"))
        cmp(rep, "extend", W, cl[1], mid, what + ": the centreline ends in the middle of the tip")
        cmp(rep, "extend", W, cl[0], ask_(X, lambda: at(X, X.I.getattr(e, "rd_connector"), 0.5)), what + ": the centreline begins in the middle of the root")
        for n, q in (("ra_connector", X.known["tip"]), ("rd_connector", X.known["root"])):
            cmp(rep, "extend", W, ask_(X, lambda: at(X, X.I.getattr(e, n), 0.5)), q, "%s: middle of %s" % (what, n))
        for n in ("ro_curve_tooth", "ro_connector_1"):
            cmp(rep, "extend", W, got[n][0], X.known["split"], "%s: start of %s is under the tooth's start" % (what, n))
        outlines(rep, X, e, what, OUTLINES)
        f = X.name("generate_profile_closed", "gggears_core")
        ch = ask_(X, lambda: X.call(f, p, cd))
        if isinstance(ch, Instance):
            joints(rep, X, ch, "generate_profile_closed", what, True)
            ps = chain_parts(X, ch)
            if ps and len(ps) == 4:
                for k in (0, 1):
                    cmp(rep, "order", "generate_profile_closed", at(X, ps[0], k), at(X, X.I.getattr(p, "profile"), k), what + ": begins with the profile")
                    cmp(rep, "order", "generate_profile_closed", at(X, ps[2], k), before["ro_curve"][1 - k], what + ": returns on the ring")
        else:
            rep.unk("generate_profile_closed")
    rep.engine(X)


def sc_nurb(rep, cone, flank, ext, pad):
    X = C.few(context())
    p, cd, cont = build_profile(X, cone, flank)
    what = "%s, flank %s%s%s" % (cone, flank, ", extended" if ext else "", ", padded" if pad else "")
    if ext:
        p = X.meth(X.name("GearRefProfileExtended"), "from_refprofile", p, cd)
    names = curves_of(X, p)
    tr = X.I.getattr(p, "transform")
    src = {n: [ask_(X, (lambda v=v: X.call(tr, v))) if v is not None else None for v in ends(X, X.I.getattr(p, n))] for n in names}
    pitch = X.I.getattr(p, "pitch_angle")
    W = "gearprofile_to_nurb"
    r = ask_(X, lambda: X.call(X.name(W, "gggears_convert"), p, pad_inactive=T_(1) if pad else T_(0)))
    if not isinstance(r, Instance):
        return rep.unk("%s %s" % (W, what))
    rep.check(r.cls.name == p.cls.name, "role", W, "%s becomes %s" % (p.cls.name, r.cls.name), what)
    for n in names:
        got = ends(X, X.I.getattr(r, n))
        for k in (0, 1):
            cmp(rep, "role", W, got[k], src[n][k], "%s: %s, end %d" % (what, n, k))
    cmp(rep, "role", W, X.I.getattr(r, "pitch_angle"), pitch, what + ": pitch angle")
    q = C.vec("probe")
    cmp(rep, "role", W, ask_(X, lambda: X.call(X.I.getattr(r, "transform"), q)), q, what + ": the transform is used up")
    rep.engine(X)


def sc_boundary(rep, cone, flank):
    X = C.few(context())
    p, cd, cont = build_profile(X, cone, flank)
    what = "%s, flank %s" % (cone, flank)
    n = 5
    td = X.call(X.name("GearToothParam"), num_teeth=D.num_const(n))
    pitch = D.num_const(2 * math.pi / n)
    p.d["pitch_angle"] = pitch
    e = ends(X, X.I.getattr(p, "profile"))
    tr = X.I.getattr(p, "transform")
    rot = lambda v, a: X.call(X.name("rotate_vector", "gggears_core"), v, D.num_const(a))
    f = "generate_boundary_chain"
    ch = ask_(X, lambda: X.call(X.name(f, "gggears_core"), p, td))
    if isinstance(ch, Instance):
        ps = chain_parts(X, ch)
        if ps is None:
            rep.unk(f)
        else:
            rep.check(len(ps) == n, "repeat", f, "%d teeth make %d repetitions" % (n, len(ps)), what)
            for i, q in enumerate(ps):
                for k in (0, 1):
                    want = ask_(X, lambda: X.call(tr, rot(e[k], 2 * math.pi * i / n)))
                    cmp(rep, "repeat", f, at(X, q, k), want, "%s: tooth %d, end %d" % (what, i, k))
    else:
        rep.unk(f)
    f = "generate_boundary"
    b = ask_(X, lambda: X.call(X.name(f, "gggears_core"), p, td))
    if isinstance(b, Instance):
        fn = X.I.getattr(b, "function")
        prof = X.I.getattr(p, "profile")
        kw = X.I.getattr(b, "params")
        for i in range(n):
            t = (i + 0.25) / n
            got = ask_(X, lambda: X.call(fn, D.num_const(t)))
            want = ask_(X, lambda: X.call(tr, rot(at(X, prof, t * n % 1), 2 * math.pi * i / n)))
            cmp(rep, "repeat", f, got, want, "%s: tooth %d" % (what, i))
    else:
        rep.unk(f)
    rep.engine(X)
