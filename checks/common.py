"""Configurations, reports and drivers shared by the checks."""
import os
from sa import terms as T, domains as D, models as M, rint
from sa.domains import Num, Bad
from sa.values import *
from sa.scen import *
from sa.flat import *

REPO = os.environ.get("GGG_REPO", "/repo")
GEARS = ["InvoluteGear", "SpurGear", "SpurRingGear", "HelicalGear", "HelicalRingGear", "BevelGear", "CycloidGear"]
INVOLUTE = GEARS[:-1]
RACKS = ["InvoluteRack", "HelicalRack"]
EDGE = ("tip_fillet", "root_fillet", "tip_truncation")


def configs(tier="quick", classes=GEARS):
    """(name, class, options): every class with its discrete options fixed to each value"""
    out = []
    for c in classes:
        if c in ("InvoluteGear", "CycloidGear"):
            cones, ins = (0, None), (0, 1)
        elif c == "BevelGear":
            cones, ins = (None,), (0,)
        else:
            cones, ins = (0,), (0,)
        for cone in cones:
            for i in ins:
                for u in ((0, 1) if c in ("InvoluteGear", "SpurGear") else (0,)):
                    for h in ((0, 1) if c in ("HelicalGear", "HelicalRingGear", "HelicalRack") else (0,)):
                        o = {}
                        if c in ("InvoluteGear", "CycloidGear"):
                            o["inside_teeth"] = i
                        if c in ("InvoluteGear", "SpurGear", "BevelGear", "HelicalGear"):
                            o["enable_undercut"] = u
                        if c in ("HelicalGear", "HelicalRingGear", "HelicalRack"):
                            o["herringbone"] = h
                        if cone == 0 and c in ("InvoluteGear", "CycloidGear"):
                            o["cone"] = 0
                        n = c + "".join("," + k.split("_")[-1] + "=" + str(v) for k, v in sorted(o.items()))
                        out.append((n, c, o))
    return out


def context(**kw):
    return Ctx(REPO, **kw)


def make(X, cls, opt, pre="", placed=True, edge=True, **over):
    """a gear or rack with arbitrary parameters"""
    kw = {}
    c = X.cls(cls)
    names = X.sig(c)
    for k, v in opt.items():
        if k == "cone":
            kw["cone"] = v
        elif k in names:
            kw[k] = T_(v)
    if not edge:
        for k in EDGE:
            if k in names:
                kw[k] = D.num_const(0)
    kw.update(over)
    return X.gear(cls, pre, placed, **kw)


def three_slices(X, g):
    """an arbitrary gear with three slices"""
    core = X.get(g, "gearcore")
    zs = [scalar("zv0"), scalar("zv1"), scalar("zv2")]
    X.I.setattr(core, "z_vals", Arr(M.assemble(zs)))
    return zs


def props_of(cls):
    names = []
    for c in cls.mro:
        for k, v in c.d.items():
            if isinstance(v, Prop) and k not in names:
                names.append(k)
    return names


#: report methods and the arguments they are asked with
def qargs(X, names):
    return {
        "center_transform_at_z": [scalar("z")], "center_point_at_z": [scalar("z")], "center_location_at_z": [scalar("z")],
        "radii_data_gen": [scalar("z")], "proportion_to_z": [scalar("ratio")], "p2z": [scalar("ratio")],
        "cone_angles_at_z": [scalar("z")], "circle_involute_base": [scalar("ratio")], "build_boundary_wire": [scalar("ratio")],
    }


CORE_PROPS = ["cone", "rp", "R", "pitch_angle", "center", "center_sphere"]
CORE_METHS = ["sphere_data_at_z", "cone_at_z"]


def reports(X, g, heavy=False, skip=()):
    """name -> value of every report of a gear (properties by reflection, query methods by name)"""
    out = {}

    def one(n, f):
        if n in skip:
            return
        ok, v = X.guard(f)
        if ok:
            out[n] = v
    for n in props_of(g.cls):
        one(n, lambda: X.I.getattr(g, n))
    for n, a in qargs(X, None).items():
        if g.cls.lookup(n)[0] is not None:
            if n == "build_boundary_wire" and not heavy:
                continue
            one(n, lambda: X.meth(g, n, *a))
    core = g.d.get("gearcore")
    if isinstance(core, Instance):
        for n in CORE_PROPS:
            if core.cls.lookup(n)[0] is not None:
                one("gearcore." + n, lambda: X.I.getattr(core, n))
        for n in CORE_METHS:
            if core.cls.lookup(n)[0] is not None:
                one("gearcore." + n, lambda: X.meth(core, n, scalar("z")))
    return out


def leaves(v, name=""):
    """(path, Num) of every number in a value"""
    for p, l in flatten(v, name).items():
        if l[0] == "num":
            yield p, l[1]
        elif l[0] == "ext":
            x = l[1]
            if isinstance(x, ExtObj) and x.n is not None:
                yield p, x.n
                for k, y in x.a.items():
                    if isinstance(y, (Arr,)):
                        yield p + "." + k, y.n
                    elif isinstance(y, Num):
                        yield p + "." + k, y


def con(where):
    """construct name (file and function, without the line) of a program point"""
    p = str(where).rsplit(":", 1)
    return p[0] if len(p) == 2 and p[1].isdigit() else str(where)


def bads(rep, dom, rule, v, name):
    """report every definite violation in a value; count the facts that are definitely fine"""
    for p, n in leaves(v, name):
        d = getattr(n, dom)
        if isinstance(d, Bad):
            rep.bad(rule, con(d.where), "%s at %s: reaches %s" % (d.msg, d.where, p))
        elif d is None:
            rep.unk("%s %s" % (rule, p))
        else:
            rep.good("%s %s" % (rule, p))


def partial(rep, X):
    rep.engine(X)


def build(X, g, hook=True):
    """build the CAD part with arbitrary profiles"""
    if hook:
        profile_hook(X)
    core = g.d.get("gearcore")
    a = {}
    if isinstance(core, Instance):
        if "Helical" in g.cls.name:
            three_slices(X, g)
        a = dict(n_vert=scalar("n_vert", 0, "+", True))
    return X.guard(lambda: X.meth(g, "build_part", **a))


MESH = []
for a in INVOLUTE:
    MESH.append((a, "InvoluteGear"))
MESH += [("InvoluteGear", "SpurRingGear"), ("SpurGear", "SpurGear"), ("SpurGear", "SpurRingGear"), ("SpurRingGear", "SpurGear"),
         ("HelicalGear", "HelicalGear"), ("HelicalGear", "HelicalRingGear"), ("HelicalRingGear", "HelicalGear"),
         ("BevelGear", "BevelGear"), ("CycloidGear", "CycloidGear"), ("InvoluteRack", "InvoluteGear"),
         ("InvoluteRack", "SpurGear"), ("HelicalRack", "HelicalGear"), ("InvoluteRack", "HelicalGear")]


def is_cone(c, o):
    return c == "BevelGear" or (c in ("InvoluteGear", "CycloidGear") and o.get("cone", 1) != 0)


def mesh_configs(tier="quick"):
    """(name, class1, opts1, class2, opts2)"""
    out = []
    seen = set()
    for a, b in MESH:
        for n1, c1, o1 in configs(tier, [a]):
            for n2, c2, o2 in configs(tier, [b]):
                if o1.get("enable_undercut") or o2.get("enable_undercut"):
                    continue
                if is_cone(c1, o1) != is_cone(c2, o2):
                    continue
                if o1.get("inside_teeth") and o2.get("inside_teeth"):
                    continue
                if o1.get("herringbone") != o2.get("herringbone") and "herringbone" in o1 and "herringbone" in o2:
                    continue
                if (n1, n2) in seen:
                    continue
                seen.add((n1, n2))
                out.append(("%s -> %s" % (n1, n2), c1, o1, c2, o2))
    return out


def mesh(X, c1, o1, c2, o2, direction=None):
    """place an arbitrary gear against an arbitrarily placed partner; returns (gear, partner, alive)"""
    g = make(X, c1, o1, "a.", placed="Rack" not in c1)
    p = make(X, c2, o2, "b.", placed="Rack" not in c2)
    profile_hook(X)
    f, _ = g.cls.lookup("mesh_to")
    if f is None:
        raise Anchor("mesh_to of " + c1)
    ps = [x.arg for x in f.node.args.args][1:]
    kw = {}
    for n in ps[1:]:
        if n == "target_dir":
            kw[n] = direction if direction is not None else direction_in()
        elif n == "backlash":
            kw[n] = scalar("mesh.backlash", 1)
        elif n in ("angle_bias", "offset"):
            kw[n] = scalar("mesh." + n)
    return g, p, kw, lambda: X.guard(lambda: X.meth(g, "mesh_to", p, **kw))


def direction_in():
    """a direction vector of arbitrary length"""
    return point("target_dir", 1, "V", T.ZERO)


def placement(X, g):
    """name -> value of the placement of a gear or rack"""
    core = g.d.get("gearcore")
    if isinstance(core, Instance):
        t = X.I.getattr(core, "transform")
        return {k: X.I.getattr(t, k) for k in ("center", "orientation", "angle")}
    return {k: X.I.getattr(g, k) for k in ("position", "orientation", "offset")}


# ------------------------------------------------------------------ comparing two answers
def expand(v, name=""):
    """path -> number of everything an answer says (functions and their captured variables left out)"""
    out = {}
    for p, l in flatten(v, name).items():
        if "<" in p or l[0] in ("func", "ref"):
            continue
        if l[0] == "ext" and isinstance(l[1], ExtObj):
            x = l[1]
            out[p + "#"] = ("cls", x.cls)
            if x.n is not None:
                out[p] = ("num", x.n)
            for k, y in x.a.items():
                if isinstance(y, Arr):
                    out[p + "." + k] = ("num", y.n)
                elif isinstance(y, Num):
                    out[p + "." + k] = ("num", y)
        else:
            out[p] = l
    return out


def agree(rep, rule, construct, a, b, what, noflow=None):
    """two answers must be the same for all inputs"""
    x, y = expand(a), expand(b)
    for p in sorted(set(x) | set(y)):
        if p not in x or p not in y:
            rep.unk("%s: %s%s only on one side" % (rule, construct, p))
            continue
        r = leaf_same(x[p], y[p])
        if r is None and noflow and x[p][0] == "num" and y[p][0] == "num" and not any(
                l.split(".")[-1] in noflow for q in (x[p], y[p]) for l in q[1].deps):
            r = True        # the computations are the same and none of the differing inputs flows in
        rep.check(r, rule, construct, "%s%s: %s differs from %s" % (what, p, show_leaf(x[p]), show_leaf(y[p])), construct + p)


def show_leaf(l):
    if l[0] == "num":
        return T.show(l[1].term)[:160] if l[1].const is None else repr(l[1].const)
    return repr(l[1])[:80]


def ask_(X, thunk):
    ok, v = X.guard(thunk)
    return v if ok else None
