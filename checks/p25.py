"""Curve formulas and vector helpers satisfy their defining geometry."""
from math import comb
from .common import *
from . import curves as CV
from . import oracle as O
from .oracle import E, same, sin, cos, tan, arctan, arcsin, sqrt
from .vec import G

EXPLAIN = ("abstract interpretation of every curve formula and vector helper for arbitrary parameters; the result terms are compared "
           "with the geometric definition (unwound string, rolling circle, great circle, constant distance) for all inputs")
RULE = ("involute, cycloid, octoid: the point satisfies the defining relation of the curve at every parameter; arc: constant distance from the "
        "centre, given ends; helper: projection, angle, rotation and interpolation helpers satisfy their definition")
ASSUME = ["radii and sphere radii are positive, base circles fit on their sphere", "vectors given to the helpers are not zero"]
FG = "function_generators"


def scenarios(tier):
    return [(n, "sc_" + n, ()) for n in ("involute", "involute_sphere", "cycloid", "cycloid_cone", "octoid", "arc", "helpers", "nurb_arc")]


def const(x):
    return E(D.num_const(float(x)))


def fit(X):
    """base radius and sphere radius with base radius < sphere radius"""
    rr, q = E(scalar("R", 1, "+")), E(scalar("q", 0, "+"))
    return rr * (q / (q + 1)), rr


class Ctx:
    def __init__(self, rep):
        self.rep, self.X = rep, context()
        self.g = G(self.X)

    def f(self, name, *a, **kw):
        for m in (FG, "curve", "gearteeth"):
            try:
                fn = self.X.name(name, m)
                break
            except Anchor:
                fn = None
        if fn is None:
            raise Anchor(name)
        w = lambda x: x.n if isinstance(x, E) else x
        return self.X.call(fn, *[w(x) for x in a], **{k: w(x) for k, x in kw.items()})

    def at(self, v, *k):
        for i in k:
            v = M.getitem(self.X.I, v, D.num_const(i))
        return v

    def vec(self, *c):
        return Arr(M.assemble([(x if isinstance(x, E) else const(x)).n for x in c]))

    def dot(self, a, b):
        return E(self.g.dot(a, b))

    def sq(self, a):
        return self.dot(a, a)

    def same(self, rule, who, got, want, what):
        got = got.n if isinstance(got, Arr) else got
        want = want.n if isinstance(want, Arr) else want
        same(self.rep, rule, who, got if isinstance(got, E) else E(got), want if isinstance(want, E) else E(want), what)

    def done(self):
        self.rep.engine(self.X)


def on_circle(c, r, a, z=0):
    return c.vec(r * cos(a), r * sin(a), z)


def sc_involute(rep):
    c = Ctx(rep)
    t, r, a, z = [E(scalar(*x)) for x in (("t",), ("r", 1, "+"), ("angle",), ("z", 1))]
    p = c.f("involute_circle", t, r=r, angle=a, z_offs=z)
    foot = on_circle(c, r, t + a, z)
    d = c.g.sub(p, foot)
    c.same("involute", "involute_circle", c.sq(d), (r * t) * (r * t), "the string has the length of the unwound arc")
    c.same("involute", "involute_circle", c.dot(d, on_circle(c, const(1), t + a)), const(0), "the string is tangent to the base circle")
    c.same("involute", "involute_circle", p, c.vec(r * (cos(t + a) + t * sin(t + a)), r * (sin(t + a) - t * cos(t + a)), z), "point of the involute")
    v = CV.vec("v_offs")
    q = c.f("involute_circle", t, r=r, angle=a, z_offs=z, v_offs=v)
    vx, vy, vz = [E(c.at(v, k)) for k in range(3)]
    c.same("involute", "involute_circle", c.g.sub(q, p), c.vec(vx * cos(t + a) - vy * sin(t + a), vx * sin(t + a) + vy * cos(t + a), vz),
           "an offset point moves with the string")
    # a sphere of infinite radius
    p0 = c.f("involute_sphere", t, r=r, C=D.num_const(0), angle=a, z_offs=z, v_offs=v)
    c.same("involute", "involute_sphere", p0, q, "without curvature")
    c.done()


def sc_involute_sphere(rep):
    for sg in (1, -1):
        c = Ctx(rep)
        t, a, z = [E(scalar(*x)) for x in (("t",), ("angle",), ("z", 1))]
        r, R = fit(c.X)
        p = c.f("involute_sphere", t, r=r, C=const(sg) / R, angle=a, z_offs=z)
        m = c.vec(0, 0, sqrt(R * R - r * r) * sg + z)
        d, foot = c.g.sub(p, m), c.g.sub(on_circle(c, r, t + a, z), m)
        w = "involute_sphere"
        c.same("involute", w, c.sq(d), R * R, "on the sphere")
        c.same("involute", w, c.dot(d, foot), R * R * cos(r * t / R), "the unwound great circle has the length of the arc")
        n = on_circle(c, const(1), t + a)
        tang = c.vec(sin(t + a), -cos(t + a), 0)
        c.same("involute", w, c.dot(d, tang), R * sin(r * t / R), "the great circle touches the base circle")
        c.done()


def sc_cycloid(rep):
    c = Ctx(rep)
    t, rb, rc, a, z = [E(scalar(*x)) for x in (("t",), ("rb", 1, "+"), ("rc", 1), ("angle",), ("z", 1))]
    p = c.f("cycloid_circle", t, rb=rb, rc=rc, angle=a, z_offs=z)
    b = t * rb / rc
    c.same("cycloid", "cycloid_circle", p, c.vec((rb + rc) * cos(t + a) - rc * cos(t + a + b), (rb + rc) * sin(t + a) - rc * sin(t + a + b), z),
           "point of a circle rolling on the base circle")
    q = c.f("cycloid_cone", t, rb=rb, rc=rc, C=D.num_const(0), angle=a, z_offs=z)
    c.same("cycloid", "cycloid_cone", q, p, "without curvature")
    c.done()


def sc_cycloid_cone(rep):
    c = Ctx(rep)
    t, a, z = [E(scalar(*x)) for x in (("t",), ("angle",), ("z", 1))]
    rb, R = fit(c.X)
    q2 = E(scalar("q2", 0, "+"))
    rc = R * (q2 / (q2 + 1))
    w = "cycloid_cone"
    p = c.f(w, t, rb=rb, rc=rc, C=const(1) / R, angle=a, z_offs=z)
    m = c.vec(0, 0, sqrt(R * R - rb * rb) + z)
    foot = on_circle(c, rb, t + a, z)
    d = c.g.sub(p, m)
    c.same("cycloid", w, c.sq(d), R * R, "on the sphere")
    # chord between contact point and traced point: the rolled angle of the circle
    b = t * rb / rc
    e = c.g.sub(p, foot)
    c.same("cycloid", w, c.sq(e), (rc * rc) * (const(2) - cos(b) * 2), "rolled without slip")
    c.done()


def sc_octoid(rep):
    c = Ctx(rep)
    t, a, z, al = [E(scalar(*x)) for x in (("t",), ("angle",), ("z", 1), ("alpha",))]
    r, R = fit(c.X)
    w = "octoid"
    p = c.f(w, t, base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=z)
    m = c.vec(0, 0, sqrt(R * R - r * r) + z)
    c.same("octoid", w, c.sq(c.g.sub(p, m)), R * R, "on the sphere")
    p0 = c.f(w, const(0), base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=z)
    c.same("octoid", w, p0, on_circle(c, r, a, z), "starts on the pitch circle at the given angle")
    c.done()


def sc_arc(rep):
    c = Ctx(rep)
    t, rad, phi, rev = [E(scalar(*x)) for x in (("t",), ("radius", 1, "+"), ("phi", 0, "+"), ("revolutions",))]
    o, m = orient("frame"), CV.vec("center")
    ang = arctan(phi) * 2
    p0 = c.g.add(c.g.mm(o, c.vec(rad, 0, 0)), m)
    p1 = c.g.add(c.g.mm(o, c.vec(rad * cos(ang), rad * sin(ang), 0)), m)
    w = "arc_from_2_point_center"
    f = lambda x, **kw: c.f(w, x, p0=p0, p1=p1, center=m, **kw)
    c.same("arc", w, f(const(0)), p0, "starts at the first point")
    c.same("arc", w, f(const(1)), p1, "ends at the second point")
    c.same("arc", w, c.sq(c.g.sub(f(t), m)), rad * rad, "keeps its distance from the centre")
    c.done()


def sc_helpers(rep):
    c = Ctx(rep)
    v, w_ = CV.vec("v"), CV.vec("w")
    o = orient("frame")
    n = c.g.z(o)
    p = c.f("project_vector_to_plane", v, n)
    c.same("helper", "project_vector_to_plane", c.dot(p, n), const(0), "perpendicular to the normal")
    c.same("helper", "project_vector_to_plane", c.g.np("cross", c.g.sub(v, p), n), c.vec(0, 0, 0), "removes only the normal part")
    c.same("helper", "normalize_vector", c.sq(c.f("normalize_vector", v)), const(1), "unit length")
    c.same("helper", "normalize_vector", c.g.np("cross", c.f("normalize_vector", v), v), c.vec(0, 0, 0), "same direction")
    a = E(c.f("angle_between_vectors", v, w_))
    c.same("helper", "angle_between_vectors", cos(a) * sqrt(c.sq(v) * c.sq(w_)), c.dot(v, w_), "cosine of the angle")
    b = E(c.f("angle_between_vector_and_plane", v, n))
    c.same("helper", "angle_between_vector_and_plane", sin(b) * sin(b) * c.sq(v), c.dot(v, n) * c.dot(v, n), "sine of the angle")
    ph = E(scalar("phi"))
    r = c.f("rotate_vector", v, ph)
    x, y, z = [E(c.at(v, k)) for k in range(3)]
    c.same("helper", "rotate_vector", r, c.vec(x * cos(ph) - y * sin(ph), x * sin(ph) + y * cos(ph), z), "rotation about z")
    th = E(c.f("angle_of_vector_in_xy", v))
    c.same("helper", "angle_of_vector_in_xy", sin(th) * sqrt(x * x + y * y), y, "sine")
    c.same("helper", "angle_of_vector_in_xy", cos(th) * sqrt(x * x + y * y), x, "cosine")
    q = [E(scalar(k)) for k in ("x0", "x1", "y0", "y1")]
    f = lambda s: E(c.f("interpolate", s, *q))
    c.same("helper", "interpolate", f(q[0]), q[2], "first value")
    c.same("helper", "interpolate", f(q[1]), q[3], "last value")
    s = E(scalar("s"))
    c.same("helper", "interpolate", f(q[0] + (q[1] - q[0]) * s), q[2] + (q[3] - q[2]) * s, "linear in between")
    c.done()


def sc_nurb_arc(rep):
    """three control points of a circular arc"""
    c = Ctx(rep)
    t, rad, phi = [E(scalar(*x)) for x in (("t",), ("radius", 1, "+"), ("phi", 0, "+"))]
    o, m = orient("frame"), CV.vec("center")
    ang = arctan(phi)
    p0 = c.g.add(c.g.mm(o, c.vec(rad, 0, 0)), m)
    p1 = c.g.add(c.g.mm(o, c.vec(rad * cos(ang), rad * sin(ang), 0)), m)
    w = "calc_nurbezier_arc"
    r = c.f(w, p0, p1, m)
    if not (isinstance(r, TupleV) and len(r.items) == 2):
        return rep.unk(w)
    P, W = r.items
    q = [c.at(P, k) for k in range(3)]
    ws = [E(c.at(W, k)) for k in range(3)]
    c.same("arc", w, q[0], p0, "first point")
    c.same("arc", w, q[2], p1, "last point")
    B = bern(3, t)
    den = sum((B[k] * ws[k] for k in range(3)), const(0))
    v = None
    for k in range(3):
        x = c.g.mul(c.g.sub(q[k], m), (B[k] * ws[k] / den).n)
        v = x if v is None else c.g.add(v, x)
    c.same("arc", w, c.sq(v), rad * rad, "every point on the circle")
    c.done()


def power(t, k):
    r = const(1)
    for _ in range(k):
        r = r * t
    return r


def bern(n, t):
    return [power(t, k) * power(const(1) - t, n - 1 - k) * comb(n - 1, k) for k in range(n)]
