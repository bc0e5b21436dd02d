"""Group laws of the transforms."""
from .common import *

EXPLAIN = ("the product, inverse, application, axes and affine matrix of every transform class are evaluated abstractly on "
           "arbitrary centres, orientations (rotation matrices), scales and angles; the resulting value numbers (normal forms over "
           "the rotation group) of both sides of each law are compared")
RULE = ("group: (a*b)(p) = a(b(p)); inverse: a.invert() undoes a on both sides; affine: the affine matrix maps (p,1) to (a(p),1) and is "
        "multiplicative; apply: calling, multiplying and the apply function agree; axes: x/y/z axis are the images of the unit vectors")
ASSUME = ["orientations are rotation matrices and scales are non-zero", "products of class pairs that are rejected (NotImplemented) are not products"]
CL = ["TransformData", "Transform", "GearTransformData", "GearTransform"]


def tr(X, cn, pre, scale=True, angle=True):
    kw = dict(center=point(pre + "c"), orientation=orient(pre + "o"))
    if scale:
        kw["scale"] = scalar(pre + "s", 0, "!")
    if cn.startswith("Gear") and angle:
        kw["angle"] = scalar(pre + "angle")
    return X.call(X.name(cn), **kw)


def app(X, t, p):
    cn = t.cls
    gear = any(c.name == "GearTransformData" for c in cn.mro)
    return X.call(X.name("apply_gear_transform" if gear else "apply_transform"), p, t)


def term(v):
    return nterm(v)


def scenarios(tier):
    out = []
    for a in CL:
        for b in CL:
            out.append(("product %s*%s" % (a, b), "sc_prod", (a, b)))
        out.append(("laws of %s" % a, "sc_one", (a,)))
    return out


def prod(X, a, b):
    """a * b by Python's rules"""
    return X.guard(lambda: X.I.binop("Mult", a, b))


def sc_prod(rep, ca, cb):
    X = context()
    a, b, p = tr(X, ca, "a."), tr(X, cb, "b."), point("p")
    ok, m = X.guard(lambda: X.meth(a, "__mul__", b))
    if not ok or not isinstance(m, Instance):
        rep.good("%s*%s is rejected" % (ca, cb))
        return
    l, r = term(app(X, m, p)), term(app(X, a, app(X, b, p)))
    rep.check(rint.eq(l, r), "group", "%s.__mul__(%s)" % (ca, cb),
              "(a*b)(p) = %s but a(b(p)) = %s" % (T.show(l)[:300], T.show(r)[:300]), "%s*%s" % (ca, cb))
    if "affine_matrix" in props_of(m.cls):
        for x, q in ((m, "product"),):
            affine(rep, X, x, "%s.affine_matrix" % x.cls.name)
    rep.engine(X)


def affine(rep, X, t, construct):
    ok, A = X.guard(lambda: X.I.getattr(t, "affine_matrix"))
    if not ok or not isinstance(A, Arr):
        return
    k = None
    for (w, m), c in A.n.term:
        if len(w) == 1 and not m and c == 1.0:
            k = T.atom_key(w[0])
    if k is None or k[:2] != ("app", "block") or len(A.n.term) != 1 or len(k) != 8:
        rep.unk(construct)
        return
    lin, off, rest = k[2], k[3], k[4:]
    p = point("p")
    want = term(app(X, t, p))
    got = T.add(T.matmul(lin, p.n.term), off)
    rep.check(rint.eq(got, want), "affine", construct, "affine matrix maps p to %s, the transform to %s" % (T.show(got)[:300], T.show(want)[:300]))
    rep.check(rest == (T.ZERO, T.ZERO, T.ZERO, T.ONE), "affine", construct, "last row is not 0 0 0 1")


def sc_one(rep, cn):
    X = context()
    a, p = tr(X, cn, "a."), point("p")
    ok, i = X.guard(lambda: X.meth(a, "invert"))
    if ok and isinstance(i, Instance):
        for n, v in (("inverse after transform", app(X, i, app(X, a, p))), ("transform after inverse", app(X, a, app(X, i, p)))):
            rep.check(rint.eq(term(v), p.n.term), "inverse", "%s.invert" % cn, "%s maps p to %s" % (n, T.show(term(v))[:300]), n)
        ok, e = X.guard(lambda: X.meth(a, "__mul__", i))
        if ok and isinstance(e, Instance):
            rep.check(rint.eq(term(app(X, e, p)), p.n.term), "inverse", "%s.invert" % cn, "a * a.invert() is not the identity")
    affine(rep, X, a, "%s.affine_matrix" % cn)
    want = term(app(X, a, p))
    c, R, s = point("a.c").n.term, orient("a.o").n.term, scalar("a.s").term
    if cn.startswith("Gear"):
        R = T.matmul(R, T.rot("z", scalar("a.angle").term))
    ref = T.add(T.matmul(T.mul(s, R), p.n.term), c)
    rep.check(rint.eq(want, ref), "apply", "application of %s" % cn, "maps p to %s instead of scale * orientation%s @ p + centre"
              % (T.show(want)[:300], " @ Rz(angle)" if cn.startswith("Gear") else ""))
    ok, v = X.guard(lambda: X.meth(a, "__mul__", p))
    if ok and isinstance(v, Arr):
        rep.check(rint.eq(term(v), want), "apply", "%s.__mul__(points)" % cn, "a * p differs from applying a to p")
    if a.cls.lookup("__call__")[0] is not None:
        ok, v = X.guard(lambda: X.call(a, p))
        if ok and isinstance(v, Arr):
            rep.check(rint.eq(term(v), want), "apply", "%s.__call__" % cn, "a(p) differs from applying a to p: %s" % T.show(term(v))[:300])
    # point arrays: one row per point
    q = Arr(Num(None, (None, 3), None, frozenset(["pts"]), 1, "V", T.ONE, D.N1, None))
    for n, e in (("x_axis", 0), ("y_axis", 1), ("z_axis", 2)):
        ok, v = X.guard(lambda: X.I.getattr(a, n))
        if ok and isinstance(v, Arr):
            o = orient("a.o").n.term
            rep.check(rint.eq(term(v), T.matmul(o, T.E3[e])), "axes", "%s.%s" % (cn, n), "%s is %s" % (n, T.show(term(v))))
    # the transform itself is unchanged by all of this
    for k, t in (("center", c), ("orientation", orient("a.o").n.term), ("scale", s)):
        rep.check(rint.eq(term(X.I.getattr(a, k)), t), "apply", "%s.%s" % (cn, k), "changed by using the transform")
    rep.engine(X)
