"""Conversions of a curve describe the curve as it currently is."""
import math
from . import curves as C
from .common import *
from .oracle import same
from .p13 import at, ends, where, pieces, active, cmp, length
from sa.flat import nterm
from sa import rint, terms as T, domains as D, models as M

EXPLAIN = ("abstract interpretation of every conversion (transform, mirror, rotation, sum, difference, multiple, NURBS conversion, "
           "Bezier fit, CAD edge) of every curve class as created, trimmed, reversed and both, with symbolic geometry; the ends of "
           "the result are compared with the moved ends of the curve; the arguments of the CAD kernel call are compared with it")
RULE = ("ends: the result starts and ends where the current curve does, moved once; inner: exact conversions (line, arc, Bezier) agree "
        "between the ends too; kernel: lines, circles and splines handed to the kernel are those of the curve; pieces: each piece of a "
        "chain is converted, in order; active: being active is carried over")
ASSUME = ["scipy.optimize results are arbitrary numbers", "length approximation is analysed at 4 instead of 21 samples",
          "build123d: make_circle draws from start_angle to end_angle degrees in the plane's frame, Location with Intrinsic.XYZ angles "
          "rotates about x, then the new y, then the new z"]
SINGLE = ["LineCurve", "ArcCurve", "InvoluteCurve", "SphericalInvoluteCurve", "OctoidCurve", "CycloidCurve", "CycloidConicCurve",
          "TransformedCurve", "MirroredCurve", "RotatedCurve", "NurbCurve", "Curve", "TransformedCurve of NurbCurve"]
CHAINS = ["NURBSCurve", "CurveChain", "nested CurveChain", "RotatedCurve of NURBSCurve", "MirroredCurve of CurveChain",
          "CurveChain with inactive piece", "CurveChain of TransformedCurve"]


def scenarios(tier):
    out = []
    for k in SINGLE + CHAINS:
        for how in C.TREAT:
            if k in CHAINS and "trimmed" in how and "of" in k:
                continue
            for conv in ("TransformedCurve", "MirroredCurve", "RotatedCurve", "transform", "arithmetic", "nurb", "edges", "hermite"):
                if conv == "transform" and k not in ("LineCurve", "ArcCurve"):
                    continue
                if conv == "hermite" and k in CHAINS:
                    continue
                out.append(("%s %s: %s" % (k, how, conv), "sc_conv", (k, how, conv)))
    for k in ("from_2_point_center", "from_2_point_curvature", "from_point_center_angle", "from_radius_center_angle"):
        for z in (0, 1):
            out.append(("ArcCurve.%s %d" % (k, z), "sc_arc", (k, z)))
    out.append(("get_curves", "sc_flat", ()))
    out += [("inactive " + k, "sc_inactive", (k,)) for k in SINGLE]
    out.append(("ArcCurve extended: nurb", "sc_conv", ("ArcCurve", "extended", "nurb")))
    out.append(("ArcCurve extended: edges", "sc_conv", ("ArcCurve", "extended", "edges")))
    out.append(("ArcCurve extended: transform", "sc_conv", ("ArcCurve", "extended", "transform")))
    return out


def mirrored(X, p, n):
    """the mirror image of a point in the plane through the origin with this normal"""
    i = X.I
    mul = lambda a, b: i.binop("Mult", a, b)
    num = lambda x: x if isinstance(x, Num) else Num(None, (), None, x.n.deps, None, "I", T.ZERO, D.N1, x.n.term)
    d = i.binop("MatMult", p, n)
    q = i.binop("MatMult", n, n)
    return i.binop("Sub", p, mul(D.num_const(2), mul(i.binop("Div", d, q), n)))


def ends_of(X, c):
    return ends(X, c)


def value(X, c, s):
    return at(X, c, s)


def sc_conv(rep, kind, how, conv):
    X = conversion(rep, kind, how, conv)
    bad = [p for p in X.I.problems if p[0] == "euler"]
    if bad:
        rep.bad("raises", conv, "%s (%s %s, in %s)" % (bad[0][1], kind, how, bad[0][2]))
    else:
        rep.good("raises")


def conversion(rep, kind, how, conv):
    X = C.few(context())
    c = C.treat(X, C.mk(X, kind, ""), how)
    if how == "extended":
        X.meth(c, "set_end_on", D.n_add(scalar("s_end", 0, "+"), D.num_const(1.75)))
    what = "%s %s" % (kind, how)
    if conv == "arithmetic":
        arithmetic(rep, X, c, what)
        return X
    if conv == "nurb":
        nurbs(rep, X, c, what)
        return X
    if conv == "edges":
        edges(rep, X, c, what)
        return X
    if conv == "hermite":
        hermite(rep, X, c, what)
        return X
    e = ends(X, c)
    tr = C.transform(X, "mv.", gear=True)
    ax, nrm, ang, cen = C.vec("mv.axis", 0), C.vec("mv.normal", 0), scalar("mv.rot"), C.vec("mv.pivot")
    if conv == "TransformedCurve":
        mk, mv = (lambda: X.call(X.name(conv, "curve"), tr, c)), (lambda p: X.call(tr, p))
    elif conv == "transform":
        mk, mv = (lambda: X.meth(c, "transform", tr)), (lambda p: X.call(tr, p))
    elif conv == "MirroredCurve":
        mk, mv = (lambda: X.call(X.name(conv, "curve"), c, plane_normal=nrm)), (lambda p: mirrored(X, p, nrm))
    else:
        mk, mv = (lambda: X.call(X.name(conv, "curve"), c, angle=ang)), None
    ok, r = X.guard(mk)
    w = conv if conv != "transform" else where(c, "transform")
    if not ok or not isinstance(r, Instance):
        rep.unk("%s of %s" % (conv, what))
        return X
    if mv is None:
        R = E_rot(ang)
        mv = lambda p: X.I.binop("MatMult", R, p)
    for k in (0, 1):
        got, want = at(X, r, k), (ask_(X, lambda: mv(e[k])) if e[k] is not None else None)
        cmp(rep, "ends", w, got, want, "%s: end %d" % (what, k))
    if kind in ("LineCurve", "ArcCurve"):
        # scaling and turning keep the parametrisation of lines and arcs, mirroring too
        p = at(X, c, 0.375)
        cmp(rep, "inner", w, at(X, r, 0.375), ask_(X, lambda: mv(p)), "%s: point at 0.375" % what)
    X.guard(lambda: act(rep, X, c, r, w, what))
    rep.engine(X)
    return X


def E_rot(a):
    return Arr(Num(None, (3, 3), None, a.deps, 0, "I", T.ZERO, D.N1, T.rot("z", a.term))) if hasattr(T, "rot") else None


def act(rep, X, c, r, w, what):
    a, b = active(X, c), active(X, r)
    if a is not None and b is not None:
        rep.check(bool(a) == bool(b), "active", w, "the result is %sactive (%s)" % ("" if b else "not ", what), what)


def arithmetic(rep, X, c, what):
    o = C.line(X, "other.")
    f = scalar("factor", 0, "!")
    e, eo = ends(X, c), ends(X, o)
    for op, nm, arg in (("Add", "__add__", o), ("Sub", "__sub__", o), ("Mult", "__mul__", f), ("Div", "__truediv__", f)):
        ok, r = X.guard(lambda: X.I.binop(op, c, arg))
        if not ok or not isinstance(r, Instance):
            rep.unk("%s of %s" % (nm, what))
            continue
        for k in (0, 1):
            if e[k] is None or eo[k] is None:
                rep.unk("ends of " + what)
                continue
            want = ask_(X, lambda: X.I.binop(op, e[k], eo[k] if arg is o else arg))
            cmp(rep, "ends", "Curve." + nm, at(X, r, k), want, "%s: end %d" % (what, k))
    ok, r = X.guard(lambda: X.I.binop("Mult", f, c))
    if ok and isinstance(r, Instance):
        for k in (0, 1):
            cmp(rep, "ends", "Curve.__rmul__", at(X, r, k), ask_(X, lambda: X.I.binop("Mult", e[k], f)), "%s: end %d" % (what, k))
    rep.engine(X)


def leaves_of(X, c):
    """the plain curves of a chain, in order, inactive ones left out"""
    ps = pieces(X, c) if any(k.name == "CurveChain" for k in c.cls.mro) else None
    if ps is None:
        return [c]
    out = []
    for p in ps:
        out += leaves_of(X, p)
    return [p for p in out if active(X, p) is not False]


def nurbs(rep, X, c, what):
    w = "convert_curve_nurbezier"
    src = leaves_of(X, c)
    target = None
    if c.cls.name in ("TransformedCurve", "RotatedCurve", "MirroredCurve"):
        target = ask_(X, lambda: X.I.getattr(c, "target_curve"))
    e = [ends(X, p) for p in src]
    ok, r = X.guard(lambda: X.call(X.name(w, "curve"), c))
    if not ok or not isinstance(r, Instance):
        return rep.unk("%s of %s" % (w, what))
    res = leaves_of(X, r)
    chain = target is not None and any(k.name == "CurveChain" for k in target.cls.mro)
    if chain:
        both = [at(X, res[0], 0), at(X, res[-1], 1)]
        for k in (0, 1):
            cmp(rep, "ends", w, both[k], e[0][k], "%s: end %d" % (what, k))
        return rep.engine(X)
    rep.check(len(res) == len(src), "pieces", w, "%d pieces converted to %d (%s)" % (len(src), len(res), what), what)
    if len(res) != len(src):
        return
    for i, p in enumerate(res):
        for k in (0, 1):
            cmp(rep, "ends", w, at(X, p, k), e[i][k], "%s: end %d of piece %d" % (what, k, i))
        names = [x.name for x in src[i].cls.mro]
        if "LineCurve" in names or "NurbCurve" in names:
            for u in (0.375, 0.75):
                cmp(rep, "inner", w, at(X, p, u), at(X, src[i], u), "%s: point at %s of piece %d" % (what, u, i))
        if "ArcCurve" in names:
            # the exact form is symmetric, so its middle is the middle of the arc; fitted arcs are not compared
            a, b = nterm(at(X, p, 0.5)), nterm(at(X, src[i], 0.5))
            r = exact_eq(a, b)
            rep.check(r, "inner", w, "the middle of the converted arc is not the middle of the arc (%s)" % what, what)
        act(rep, X, src[i], p, w, what)
    rep.engine(X)


def exact_eq(a, b):
    """equal wherever both can be evaluated without unknowns"""
    if a is None or b is None:
        return None
    ok = bad = 0
    for m in rint.models(24):
        try:
            (x, o), (y, q) = rint.run(m, a), rint.run(m, b)
        except (rint.Undef, RecursionError):
            continue
        if o or q:
            continue
        if rint.close(x, y):
            ok += 1
        else:
            bad += 1
    return False if bad >= 2 else (True if ok >= 2 and not bad else None)


def hermite(rep, X, c, what):
    e = ends(X, c)
    for w, n in (("fit_bezier_hermite_cubic", 4), ("fit_bezier_hermite_quadratic", 3)):
        ok, r = X.guard(lambda: X.call(X.name(w, "curve"), c))
        if not ok:
            rep.unk("%s of %s" % (w, what))
            continue
        for k, i in ((0, 0), (1, n - 1)):
            cmp(rep, "ends", w, ask_(X, lambda: M.getitem(X.I, r, D.num_const(i))), e[k], "%s: end %d" % (what, k))
    rep.engine(X)


def edges(rep, X, c, what):
    w = "curve_to_edges"
    src = leaves_of(X, c)
    e = [ends(X, p) for p in src]
    calls = []
    X.I.kernel_hook = lambda short, args, kw, where: calls.append((short, list(args), dict(kw)))
    ok, r = X.guard(lambda: X.call(X.name(w, "gggears_build123d"), c))
    X.I.kernel_hook = None
    if not ok:
        return rep.unk("%s of %s" % (w, what))
    draw = [x for x in calls if x[0].split(".")[-1] in ("make_line", "make_circle", "make_bezier")]
    if c.cls.name in ("RotatedCurve", "MirroredCurve", "TransformedCurve") and len(draw) != 1:
        if not draw:
            return rep.unk("edges of " + what)
        a, b = drawn(X, draw[0], calls), drawn(X, draw[-1], calls)
        if a and b:
            cmp(rep, "ends", w, a[0], e[0][0], what + ": start of the edges")
            cmp(rep, "ends", w, b[1], e[0][1], what + ": end of the edges")
        return rep.engine(X)
    rep.check(len(draw) == len(src) or None, "pieces", w, "", what)
    if len(draw) != len(src):
        return
    for i, d in enumerate(draw):
        g = drawn(X, d, calls)
        if g is None:
            rep.unk("edge %d of %s" % (i, what))
            continue
        if g[2]:
            # circles may be drawn from the other end
            r = either(g[:2], e[i])
            rep.check(r, "kernel", w, "the circle drawn for piece %d of %s has not its ends" % (i, what), what)
        else:
            for k in (0, 1):
                cmp(rep, "kernel", w, g[k], e[i][k], "%s: end %d of edge %d" % (what, k, i))
    rep.engine(X)


def either(got, want):
    """the two points are the two wanted ones, in one of the two orders"""
    f = lambda x: x if not isinstance(x, (Num, Arr, Instance)) else nterm(x)
    ts = [f(x) if x is not None else None for x in list(got) + list(want)]
    if any(t is None for t in ts):
        return None
    ok = bad = 0
    for m in rint.models(8):
        try:
            vs, o = [], set()
            for t in ts:
                v, q = rint.run(m, t)
                vs.append(v)
                o |= q
        except (rint.Undef, RecursionError):
            continue
        if (rint.close(vs[0], vs[2]) and rint.close(vs[1], vs[3])) or (rint.close(vs[0], vs[3]) and rint.close(vs[1], vs[2])):
            ok += 1
        elif not o:
            bad += 1
    return False if bad >= 2 else (True if ok and not bad else None)


def D_(t):
    return Num(None, (), None, frozenset(), 0, "I", T.ZERO, 1.0, t)


def drawn(X, call, calls):
    """the two ends of a drawn edge, and whether its direction is free"""
    short, args, kw = call
    n = short.split(".")[-1]
    if n in ("make_line", "make_bezier") and len(args) >= 2:
        return point_of(X, args[0]), point_of(X, args[-1]), False
    if n == "make_circle":
        get = lambda i, k: args[i] if len(args) > i else kw.get(k)
        rad, pl, a0, a1 = get(0, "radius"), get(1, "plane"), get(2, "start_angle"), get(3, "end_angle")
        loc = pl.a.get("args", (None,))[0] if isinstance(pl, ExtObj) else None
        if not isinstance(loc, ExtObj) or loc.a.get("m") is None or loc.a.get("c") is None or not all(isinstance(x, Num) and x.term is not None for x in (rad, a0, a1)):
            return None
        out = []
        for a in (a0, a1):
            t = T.mul(a.term, T.const(math.pi / 180))
            v = T.add(T.mul(D.n_fn("cos", D_(t)).term, T.tensor(("e", 0))), T.mul(D.n_fn("sin", D_(t)).term, T.tensor(("e", 1))))
            out.append(T.add(loc.a["c"], T.mul(rad.term, T.matmul(loc.a["m"], v))))
        return out[0], out[1], True
    return None


def point_of(X, v):
    """the numbers a kernel vector was made of"""
    if isinstance(v, (Num, Arr)):
        return v
    a = v.a.get("args") if isinstance(v, ExtObj) else None
    if not a:
        return None
    if len(a) == 1:
        if isinstance(a[0], (Num, Arr)):
            return a[0]
        a = getattr(a[0], "items", None)
    if a and len(a) == 3 and all(isinstance(x, Num) for x in a):
        return Arr(M.assemble(list(a)))
    return None


def sc_arc(rep, name, z):
    X = C.few(context())
    A = X.name("ArcCurve", "curve")
    w = "ArcCurve." + name
    c = C.vec("center")
    a = X.I.binop("Sub", C.vec("p0"), c)
    f = lambda **kw: X.guard(lambda: X.call(X.I.getattr(A, name), **kw))
    if name == "from_2_point_center":
        # the second point lies on the same circle
        b = X.I.binop("MatMult", C_orient("turn"), a)
        p0, p1 = X.I.binop("Add", c, a), X.I.binop("Add", c, b)
        ok, r = f(p0=p0, p1=p1, center=c)
        want = [p0, p1]
    elif name == "from_2_point_curvature":
        p0, p1 = C.vec("p0"), C.vec("p1")
        ok, r = f(p0=p0, p1=p1, curvature=scalar("curvature", -1, "+"), axis=C.vec("axis", 0))
        want = [p0, p1]
    elif name == "from_point_center_angle":
        p0 = C.vec("p0")
        ok, r = f(p0=p0, center=c, angle=scalar("angle"), axis=C.vec("axis", 0))
        want = [p0, None]
    else:
        s, e, rad = scalar("angle_start"), scalar("angle_end"), scalar("radius", 1, "+")
        ok, r = f(radius=rad, center=c, angle_start=s, angle_end=e)
        from . import oracle as O
        pt = lambda t: O.E(rad) * (O.cos(O.E(t)) * O.e(0) + O.sin(O.E(t)) * O.e(1)) + O.E(c.n)
        want = [Arr(pt(s).n), Arr(pt(e).n)]
    if not ok or not isinstance(r, Instance):
        return rep.unk(w)
    for k in (0, 1):
        if want[k] is not None:
            cmp(rep, "ends", w, at(X, r, k), want[k], "end %d" % k)
    ok, g = X.guard(lambda: X.I.getattr(r, "center"))
    if ok and name != "from_2_point_curvature":
        cmp(rep, "arc", w, g, c, "centre")
    rep.engine(X)


def C_orient(label):
    return Arr(Num(None, (3, 3), None, frozenset([label]), 0, "S", T.ZERO, D.N1, T.tensor(("in", label), orth=True))) if "orth" in T.tensor.__code__.co_varnames else orient(label)


def sc_flat(rep):
    X = C.few(context())
    for kind in ("nested CurveChain", "CurveChain", "CurveChain with inactive piece"):
        c = C.mk(X, kind, "")
        w = where(c, "get_curves")
        src = []
        def flat(c):
            for p in pieces(X, c):
                if any(k.name == "CurveChain" for k in p.cls.mro):
                    flat(p)
                else:
                    src.append(p)
        flat(c)
        ok, r = X.guard(lambda: X.meth(c, "get_curves"))
        it = getattr(r, "items", None)
        if not ok or it is None:
            rep.unk("get_curves of " + kind)
            continue
        rep.check([id(x) for x in it] == [id(x) for x in src], "pieces", w, "the pieces of a %s are not its plain curves in order" % kind, kind)
    rep.engine(X)


def sc_inactive(rep, kind):
    """a curve that is switched off stays so"""
    X = C.few(context())
    c = C.mk(X, kind, "")
    X.I.setattr(c, "active", T_(0))
    if active(X, c) is not False:
        return rep.unk("inactive " + kind)
    tr = C.transform(X, "mv.", gear=True)
    N = lambda n: X.name(n, "curve")
    todo = [("convert_curve_nurbezier", lambda: X.call(N("convert_curve_nurbezier"), c)), ("TransformedCurve", lambda: X.call(N("TransformedCurve"), tr, c)),
            ("MirroredCurve", lambda: X.call(N("MirroredCurve"), c, plane_normal=C.vec("mv.normal", 0))),
            ("RotatedCurve", lambda: X.call(N("RotatedCurve"), c, angle=scalar("mv.rot"))), (where(c, "copy"), lambda: X.meth(c, "copy"))]
    if kind in ("LineCurve", "ArcCurve"):
        todo.append((where(c, "transform"), lambda: X.meth(c, "transform", tr)))
    for w, f in todo:
        ok, r = X.guard(f)
        if ok and isinstance(r, Instance):
            act(rep, X, c, r, w, "inactive " + kind)
        else:
            rep.unk("%s of inactive %s" % (w, kind))
    rep.engine(X)
