"""Shared scenarios: propagate the fact domains through reports, profile generation, builds and meshing."""
from .common import *


def fact_scenarios(tier, prefix="sc_"):
    out = []
    for n, c, o in configs(tier):
        out.append(("reports " + n, prefix + "reports", (c, o)))
        out.append(("profile " + n, prefix + "profile", (c, o, False)))
        if tier != "quick":
            out.append(("profile+edges " + n, prefix + "profile", (c, o, True)))
        out.append(("build " + n, prefix + "build", (c, o)))
    for n, c, o in configs(tier, RACKS):
        out.append(("build " + n, prefix + "build", (c, o)))
    for m in mesh_configs(tier):
        out.append(("mesh " + m[0], prefix + "mesh", m[1:]))
    for i in ("InvoluteGear", "SpurRingGear"):
        out.append(("line of action with " + i, prefix + "loa", (i,)))
    out.append(("core gear", prefix + "core", ()))
    return out


def core_gear(X, pre="", cone=None, **kw):
    """a core Gear with arbitrary parameters, placed arbitrarily"""
    z = Arr(M.assemble([scalar(pre + "z0"), scalar(pre + "z1")]))
    tp = X.call(X.name("GearToothParam"), num_teeth=scalar(pre + "number_of_teeth", 0, "+", True), inside_teeth=T_(kw.get("inside", 0)))
    cd = X.call(X.name("ConicData"), cone_angle=D.num_const(0) if cone == 0 else scalar(pre + "cone_angle", 0, "+"))
    g = X.call(X.cls("Gear", "gggears_core"), z_vals=z, module=scalar(pre + "module", 1, "+"), tooth_param=tp, cone=cd)
    t = X.I.getattr(g, "transform")
    X.I.setattr(t, "center", point(pre + "center"))
    X.I.setattr(t, "orientation", orient(pre + "orientation"))
    X.I.setattr(t, "angle", scalar(pre + "angle"))
    return g


def core_reports(X, g):
    out = {}

    def one(n, f):
        ok, v = X.guard(f)
        if ok:
            out[n] = v
    for n in props_of(g.cls):
        one("gearcore." + n, lambda: X.I.getattr(g, n))
    for n in CORE_METHS:
        if g.cls.lookup(n)[0] is not None:
            one("gearcore." + n, lambda: X.meth(g, n, scalar("z")))
    return out


class Facts:
    """one fact domain: dom is 'dim', 'rot' or 'ang'"""

    def __init__(self, dom, rule, spec=None, part=None, place=None, local_profile=True):
        self.dom, self.rule, self.spec, self.part, self.place = dom, rule, spec, part, place

    def val(self, rep, X, name, v):
        bads(rep, self.dom, self.rule, v, name)
        if self.spec:
            self.spec(rep, X, name, v)

    def sinks(self, rep, X):
        for k, msg, where in X.I.sinks:
            if k == self.dom:
                rep.bad(self.rule, con(where), "%s at %s" % (msg, where))
        rep.engine(X)
        for k, c in X.I.sink_count.items():
            rep.stats["sink:" + k] = rep.stats.get("sink:" + k, 0) + c

    def reports(self, rep, c, o):
        X = context()
        g = make(X, c, o)
        profile_hook(X)
        for n, v in reports(X, g).items():
            self.val(rep, X, n, v)
        self.sinks(rep, X)

    def core(self, rep):
        for cone in (0, None):
            X = context()
            g = core_gear(X, cone=cone)
            profile_hook(X)
            for n, v in core_reports(X, g).items():
                self.val(rep, X, n, v)
            X = context()
            a, b = core_gear(X, "a.", cone), core_gear(X, "b.", cone)
            ok, _ = X.guard(lambda: X.meth(a, "mesh_to", b, target_dir=direction_in()))
            if ok:
                t = X.I.getattr(a, "transform")
                for k in ("center", "orientation", "angle"):
                    v = X.I.getattr(t, k)
                    bads(rep, self.dom, self.rule, v, "%s after mesh_to" % k)
                    if self.place:
                        self.place(rep, X, "Gear", k, v)
            self.sinks(rep, X)

    def profile(self, rep, c, o, edge):
        X = context()
        g = make(X, c, o, edge=edge)
        ok, v = X.guard(lambda: X.meth(X.get(g, "gearcore"), "curve_gen_at_z", scalar("z")))
        if ok:
            bads(rep, self.dom, self.rule, v, "profile")
        self.sinks(rep, X)

    def build(self, rep, c, o):
        X = context()
        g = make(X, c, o, placed="Rack" not in c)
        ok, v = build(X, g)
        if ok:
            bads(rep, self.dom, self.rule, v, "part")
            if self.part:
                self.part(rep, X, c, v, g)
            bads(rep, self.dom, self.rule, g, "gear")
        self.sinks(rep, X)

    def mesh(self, rep, c1, o1, c2, o2):
        X = context()
        g, p, kw, go = mesh(X, c1, o1, c2, o2)
        ok, _ = go()
        if ok:
            for k, v in placement(X, g).items():
                bads(rep, self.dom, self.rule, v, "%s after mesh_to" % k)
                if self.place:
                    self.place(rep, X, c1, k, v)
        self.sinks(rep, X)

    def loa(self, rep, cls2):
        X = context()
        o = {"cone": 0, "enable_undercut": 0, "inside_teeth": 0}
        g, p = make(X, "InvoluteGear", o, "a."), make(X, cls2, o, "b.")
        ok, l = X.guard(lambda: X.call(X.cls("LineOfAction"), g, p))
        if ok:
            ok, v = X.guard(lambda: X.meth(l, "LOA_gen"))
            if ok:
                bads(rep, self.dom, self.rule, v, "line of action")
                self.loaspec(rep, X, v)
        self.sinks(rep, X)

    def loaspec(self, rep, X, v):
        pass
