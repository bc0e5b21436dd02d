"""Meshing is covariant under rigid motion of the partner and the direction."""
from .common import *
from .facts import *

EXPLAIN = ("abstract interpretation of mesh_to of every class pair with the rigid-motion domain: the partner's position is a world "
           "point, its orientation a world frame, the direction a world vector, everything else invariant; the placement computed "
           "for the meshed gear must be a world point of weight 1, a world frame and an invariant angle (rack: invariant offset)")
RULE = ("rot: no placement result singles out a world axis or coordinate; covariance: the value number of the placement, evaluated for a moved partner and direction, equals the moved value; meshspec: position covariant with weight 1, orientation a "
        "frame, angle and offset invariant")
ASSUME = ["summaries of numpy and scipy calls used by the placement code (sa/ext.py) have the stated covariance"]


MOVE = rint.rigid(("b.center", "b.position"), ("b.orientation",), ("target_dir",))


def place(rep, X, c, k, v):
    for p, n in leaves(v, k):
        e = {"center": rint.as_point, "position": rint.as_point, "orientation": rint.as_frame}.get(k, rint.as_is)
        r = rint.invariant(n.term, MOVE, e)
        if r is None:
            rep.unk("covariance of %s" % k)
        else:
            rep.check(r, "covariance", "%s.mesh_to %s" % (c, k), "%s after meshing does not follow a rigid motion of the partner and direction: %s"
                      % (k, T.show(n.term)[:300]))
        if n.rot is None or isinstance(n.rot, Bad):
            continue
        con_ = "%s.mesh_to %s" % (c, k)
        if k in ("center", "position"):
            if n.rot != "V":
                rep.bad("meshspec", con_, "the position after meshing does not follow the partner (behaves as %s)" % (n.rot,))
            elif n.wt is not None:
                rep.check(rint.eq(n.wt, T.ONE), "meshspec", con_, "the position after meshing moves %s times as far as the partner" % T.show(n.wt))
        elif k == "orientation":
            rep.check(n.rot == "F", "meshspec", con_, "the orientation after meshing does not turn with the partner (behaves as %s)" % (n.rot,))
        else:
            rep.check(n.rot in ("S", D.Z), "meshspec", con_, "the %s after meshing depends on the placement of the pair" % k)


F = Facts("rot", "rot", None, None, place)


def sc_mesh(rep, c1, o1, c2, o2):
    F.mesh(rep, c1, o1, c2, o2)


def sc_core(rep, cone, ins):
    X = context()
    a, b = core_gear(X, "a.", cone, inside=ins[0]), core_gear(X, "b.", cone, inside=ins[1])
    ok, _ = X.guard(lambda: X.meth(a, "mesh_to", b, target_dir=direction_in()))
    if ok:
        t = X.I.getattr(a, "transform")
        for k in ("center", "orientation", "angle"):
            v = X.I.getattr(t, k)
            bads(rep, "rot", "rot", v, "%s after mesh_to" % k)
            place(rep, X, "Gear", k, v)
    rep.engine(X)


def scenarios(tier):
    out = [("mesh " + m[0], "sc_mesh", m[1:]) for m in mesh_configs(tier)]
    for cone in (0, None):
        for ins in ((0, 0), (0, 1), (1, 0)):
            out.append(("mesh core gears cone=%s inside=%s" % (cone, ins), "sc_core", (cone, ins)))
    return out
