"""Arbitrary curves of every class, and everything that can be asked of a curve."""
from .common import *

KINDS = ["LineCurve", "ArcCurve", "InvoluteCurve", "SphericalInvoluteCurve", "OctoidCurve", "CycloidCurve", "CycloidConicCurve",
         "TransformedCurve", "MirroredCurve", "RotatedCurve", "NurbCurve", "NURBSCurve", "CurveChain", "nested CurveChain", "Curve", "TransformedCurve of NurbCurve", "RotatedCurve of NURBSCurve",
         "MirroredCurve of CurveChain", "CurveChain with inactive piece", "CurveChain of TransformedCurve"]
#: how the curve was treated before the question
TREAT = ["as created", "trimmed", "reversed", "trimmed and reversed"]


def vec(label, dim=1):
    return Arr(Num(None, (3,), None, frozenset([label]), dim, "S", T.ZERO, D.N1, T.tensor(("in", label))))


def pts(label, n=4):
    return Arr(Num(None, (n, 3), None, frozenset([label]), 1, "S", T.ZERO, D.N1, T.tensor(("in", label))))


def wts(label, n=4):
    return Arr(Num(None, (n,), None, frozenset([label]), 0, "S", T.ZERO, D.N1, T.tensor(("in", label))))


def line(X, pre):
    return X.call(X.name("LineCurve", "curve"), p0=vec(pre + "p0"), p1=vec(pre + "p1"))


def arc(X, pre, **kw):
    a = dict(radius=scalar(pre + "radius", 1, "+"), angle=scalar(pre + "angle"), center=vec(pre + "center"), yaw=scalar(pre + "yaw"),
             pitch=scalar(pre + "pitch"), roll=scalar(pre + "roll"))
    a.update(kw)
    return X.call(X.name("ArcCurve", "curve"), **a)


def nurb(X, pre):
    return X.call(X.name("NurbCurve", "curve"), pts(pre + "points"), wts(pre + "weights"))


def transform(X, pre, gear=True):
    kw = dict(center=point(pre + "center"), orientation=orient(pre + "orientation"), scale=scalar(pre + "scale", 0, "+"))
    if gear:
        kw["angle"] = scalar(pre + "angle")
    return X.call(X.name("GearTransform" if gear else "Transform"), **kw)


def mk(X, kind, pre=""):
    """an arbitrary curve of a class"""
    s = lambda n, d=0, g=None: scalar(pre + n, d, g)
    C = lambda n, **kw: X.call(X.name(n, "curve"), **kw)
    if kind == "LineCurve":
        return line(X, pre)
    if kind == "ArcCurve":
        return arc(X, pre)
    if kind == "InvoluteCurve":
        return C(kind, r=s("r", 1, "+"), t0=s("t0"), t1=s("t1"), angle=s("angle"), v_offs=vec(pre + "v_offs"), z_offs=s("z_offs", 1))
    if kind == "SphericalInvoluteCurve":
        return C(kind, r=s("r", 1, "+"), t0=s("t0"), t1=s("t1"), angle=s("angle"), c_sphere=s("c_sphere", -1, "+"),
                 v_offs=vec(pre + "v_offs"), z_offs=s("z_offs", 1))
    if kind == "OctoidCurve":
        names = X.sig(X.name(kind, "curve"))
        kw = dict(t0=s("t0"), t1=s("t1"), angle=s("angle"))
        for n in names:
            if n in kw or n in ("active", "enable_vectorize", "lenght_approx_ndiv"):
                continue
            kw[n] = vec(pre + n) if n == "v_offs" else s(n, 0, "+")
        return C(kind, **kw)
    if kind in ("CycloidCurve", "CycloidConicCurve"):
        names = X.sig(X.name(kind, "curve"))
        kw = {}
        for n in names:
            if n in ("active", "enable_vectorize", "lenght_approx_ndiv"):
                continue
            kw[n] = vec(pre + n) if n == "v_offs" else s(n, 0, "+" if n in ("rb", "rc", "C") else None)
        return C(kind, **kw)
    if kind == "TransformedCurve":
        return X.call(X.name(kind, "curve"), transform(X, pre + "tr."), mk(X, "InvoluteCurve", pre + "target."))
    if kind == "MirroredCurve":
        return C(kind, curve=mk(X, "InvoluteCurve", pre + "target."), plane_normal=vec(pre + "plane_normal", 0), center=vec(pre + "center"))
    if kind == "RotatedCurve":
        return C(kind, curve=mk(X, "InvoluteCurve", pre + "target."), angle=s("angle"), axis=vec(pre + "axis", 0), center=vec(pre + "center"))
    if kind == "NurbCurve":
        return nurb(X, pre)
    if kind == "NURBSCurve":
        return X.call(X.name(kind, "curve"), nurb(X, pre + "0."), nurb(X, pre + "1."))
    if kind == "CurveChain":
        return X.call(X.name(kind, "curve"), line(X, pre + "0."), arc(X, pre + "1."), mk(X, "InvoluteCurve", pre + "2."))
    if kind == "nested CurveChain":
        return X.call(X.name("CurveChain", "curve"), line(X, pre + "0."),
                      X.call(X.name("CurveChain", "curve"), arc(X, pre + "1."), line(X, pre + "2.")))
    if kind == "TransformedCurve of NurbCurve":
        return X.call(X.name("TransformedCurve", "curve"), transform(X, pre + "tr."), nurb(X, pre + "target."))
    if kind == "RotatedCurve of NURBSCurve":
        return C("RotatedCurve", curve=mk(X, "NURBSCurve", pre + "target."), angle=s("angle"))
    if kind == "MirroredCurve of CurveChain":
        return C("MirroredCurve", curve=mk(X, "CurveChain", pre + "target."), plane_normal=vec(pre + "plane_normal", 0))
    if kind == "CurveChain with inactive piece":
        c = X.call(X.name("CurveChain", "curve"), line(X, pre + "0."),
                   X.call(X.name("LineCurve", "curve"), p0=vec(pre + "1.p0"), p1=vec(pre + "1.p1"), active=T_(0)), arc(X, pre + "2."))
        return c
    if kind == "CurveChain of TransformedCurve":
        return X.call(X.name("CurveChain", "curve"), mk(X, "TransformedCurve of NurbCurve", pre + "0."), mk(X, "MirroredCurve", pre + "1."))
    if kind == "Curve":
        return X.I.binop("Add", line(X, pre + "a."), mk(X, "InvoluteCurve", pre + "b."))
    raise Anchor(kind)


def few(X, n=5):
    """analyse the length approximation at n sample points instead of the default number"""
    f, _ = X.name("Curve", "curve").lookup("__init__")
    if f is None:
        raise Anchor("Curve.__init__")
    f.defaults = [D.num_const(n) if (isinstance(d, Num) and d.const == 21) else d for d in f.defaults]
    inner = X.I.call_hook

    def hook(g, env):
        if inner is not None:
            r = inner(g, env)
            if r is not None:
                return r
        if g.qual.split(".")[-1] == "nurbezier":
            a = [env.d.get(k) for k in ("t", "points", "weights")]
            if all(isinstance(x, (Num, Arr)) for x in a):
                n = [x if isinstance(x, Num) else x.n for x in a]
                if all(x.term is not None for x in n) and n[0].shape is not None and len(n[0].shape) <= 1:
                    d = n[0].deps | n[1].deps | n[2].deps
                    return Arr(Num(None, tuple(n[0].shape) + (3,), None, d, n[1].dim, n[1].rot, n[1].wt, D.N1,
                                   T.app_t("nurb", *[x.term for x in n])))
        return None
    X.I.call_hook = hook
    return X


def treat(X, c, how, pre=""):
    if "trimmed" in how:
        chain = any(k.name == "CurveChain" for k in c.cls.mro)
        for x in (X.I.getattr(c, "curves").items if chain else [c]):
            if isinstance(x, Instance) and "curves" not in x.d:
                X.meth(x, "set_start_on", scalar(pre + "s_start"))
                X.meth(x, "set_end_on", scalar(pre + "s_end"))
    if "reversed" in how:
        X.meth(c, "reverse")
    return c


def fn(X, name, mod="curve"):
    return X.name(name, mod)


def asks(X, c, kind, other):
    """(name, thunk) of every question about a curve that must not change it; thunk returns the answer"""
    s, r = scalar("s"), scalar("fillet_radius", 1, "+")
    I = X.I
    chain = any(k.name == "CurveChain" for k in c.cls.mro)
    q = [("__call__", lambda: X.call(c, s)), ("derivative", lambda: X.meth(c, "derivative", s)),
         ("derivative n=2", lambda: X.meth(c, "derivative", s, n=D.num_const(2))),
         ("cut", lambda: X.meth(c, "cut", s)), ("copy", lambda: X.meth(c, "copy")),
         ("s2t", lambda: X.meth(c, "s2t", s)), ("t2s", lambda: X.meth(c, "t2s", s)), ("get_curves", lambda: X.meth(c, "get_curves"))]
    for n in props_of(c.cls):
        q.append((n, lambda n=n: I.getattr(c, n)))
    for n, o in (("__add__", other), ("__sub__", other), ("__mul__", scalar("factor")), ("__truediv__", scalar("factor", 0, "!"))):
        q.append((n, lambda n=n, o=o: X.meth(c, n, o)))
    if chain:
        q += [("get_s_index", lambda: X.meth(c, "get_s_index", s)), ("get_length_portions", lambda: X.meth(c, "get_length_portions")),
              ("get_t_for_index", lambda: X.meth(c, "get_t_for_index", D.num_const(0))),
              ("get_curves(lerp_inactive)", lambda: X.meth(c, "get_curves", lerp_inactive=T_(1))),
              ("fillet", lambda: X.meth(c, "fillet", r)), ("fillet_at_locations", lambda: X.meth(c, "fillet_at_locations", r)),
              ("fillet_curve", lambda: X.call(fn(X, "fillet_curve"), c, r)),
              ("__getitem__", lambda: X.meth(c, "__getitem__", D.num_const(0)))]
    tr = transform(X, "t.")
    if c.cls.lookup("transform")[0] is not None:
        q.append(("transform", lambda: X.meth(c, "transform", tr)))
    q += [("TransformedCurve", lambda: X.call(fn(X, "TransformedCurve"), tr, c)),
          ("MirroredCurve", lambda: X.call(fn(X, "MirroredCurve"), c, plane_normal=vec("n", 0))),
          ("RotatedCurve", lambda: X.call(fn(X, "RotatedCurve"), c, angle=scalar("rot"))),
          ("convert_curve_nurbezier", lambda: X.call(fn(X, "convert_curve_nurbezier"), c)),
          ("curve_to_edges", lambda: X.call(X.name("curve_to_edges", "gggears_build123d"), c)),
          ("find_curve_plane_intersect", lambda: X.call(fn(X, "find_curve_plane_intersect"), c)),
          ("find_curve_line_intersect", lambda: X.call(fn(X, "find_curve_line_intersect"), c)),
          ("find_curve_nearest_point", lambda: X.call(fn(X, "find_curve_nearest_point"), c, vec("point"))),
          ("find_curve_intersect", lambda: X.call(fn(X, "find_curve_intersect"), c, other)),
          ("curve_index", lambda: X.call(fn(X, "curve_index"), c)),
          ("fit_bezier_hermite_cubic", lambda: X.call(fn(X, "fit_bezier_hermite_cubic"), c)),
          ("fit_bezier_hermite_quadratic", lambda: X.call(fn(X, "fit_bezier_hermite_quadratic"), c)),
          ]
    return q
