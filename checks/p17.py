"""Evaluating a shape recipe at a height evaluates everything there, once."""
import ast
from .common import *
from .p02 import snapshot, compare
from .p13 import cmp
from sa.flat import nterm
from sa import terms as T, domains as D, models as M
from sa.values import Func, Bound, PartialV

EXPLAIN = ("abstract interpretation of the evaluation, at a symbolic height, of the recipe of every gear class and of every recipe part "
           "class with each entry constant or a function of the height, and of recipes nested in recipes; each entry of the result is "
           "compared as a term with the entry's own function applied to the height; the heap reachable from the recipe is compared "
           "before and after")
RULE = ("kind: the result has the class of the recipe; value: a height dependent entry of the result is the entry's function at this "
        "height; carried: a constant entry is carried over; nested: the same holds for entries that are recipes; effect: the recipe is "
        "not changed")
ASSUME = ["functions of the height are functions: equal heights give equal values"]


def scenarios(tier):
    out = []
    for n, cls, opt in configs(tier):
        for z in ("height", "zero"):
            out.append(("%s at %s" % (n, z), "sc_gear", (cls, opt, z)))
    for n in ("ConicDataRecipe", "ToothLimitParamRecipe", "GearTransformRecipe", "FilletDataRecipe", "GearToothGenerator",
              "GearToothConicGenerator", "InvoluteTooth", "OctoidTooth", "OctoidUndercutTooth", "CycloidTooth", "RackToothGenerator"):
        for how in ("constant", "function", "mixed", "other mixed"):
            out.append(("%s, entries %s" % (n, how), "sc_part", (n, how)))
    for how in ("constant", "function", "mixed", "other mixed"):
        out.append(("GearProfileRecipe, entries %s" % how, "sc_nested", (how,)))
    return out


def lam(X, src):
    """a function of the height, as a user would write it"""
    m = X.mod("gggears_core")
    return X.I.eval(ast.parse(src, mode="eval").body, m.env if hasattr(m, "env") else Env_of(X, m))


def Env_of(X, m):
    f = X.name("default_gear_recipe", "gggears_core")
    return f.env


def recipe(v):
    return isinstance(v, Instance) and any(k.name == "ZFunctionMixin" for k in v.cls.mro)


def fun(v):
    return isinstance(v, (Func, Bound, PartialV))


def entry(rep, X, got, src, z, path, depth=0):
    W = "ZFunctionMixin.__call__"
    if recipe(src):
        if not isinstance(got, Instance):
            return rep.unk(path)
        rep.check(got.cls is src.cls, "kind", W, "%s: a %s becomes a %s" % (path, src.cls.name, got.cls.name), path)
        rep.check(got is not src, "nested", W, "%s: the recipe itself is part of its value" % path, path)
        for k, v in src.d.items():
            if k not in got.d:
                rep.bad("value", W, "%s.%s is missing in the result" % (path, k))
                continue
            entry(rep, X, got.d[k], v, z, path + "." + k, depth + 1)
        return
    if fun(src):
        if fun(got):
            return rep.bad("value", W, "%s is still a function in the result" % path)
        want = ask_(X, lambda: X.call(src, z))
        return leaf(rep, X, "value", W, got, want, path)
    leaf(rep, X, "carried", W, got, src, path)


def leaf(rep, X, rule, W, got, want, path):
    if isinstance(want, (Num, Arr)) and isinstance(got, (Num, Arr)):
        return cmp(rep, rule, W, got, want, path)
    if want is None or got is None:
        return rep.unk(path)
    if isinstance(want, Instance) and isinstance(got, Instance):
        rep.check(want.cls is got.cls, rule, W, "%s: %s instead of %s" % (path, got.cls.name, want.cls.name), path)
        for k, v in want.d.items():
            if k in got.d:
                leaf(rep, X, rule, W, got.d[k], v, path + "." + k)
            else:
                rep.bad(rule, W, "%s.%s is missing" % (path, k))
        return
    if type(want) is type(got):
        if isinstance(want, Const):
            return rep.check(want.v == got.v, rule, W, "%s: %r instead of %r" % (path, got.v, want.v), path)
        if want.__class__.__name__ in ("Func", "Bound", "PartialV", "ClassV"):
            return rep.good(rule)
    rep.unk(path)


def evaluate(rep, X, r, z, name):
    before = snapshot(X, {name: r})
    ok, v = X.guard(lambda: X.call(r, z))
    if not ok:
        rep.unk("%s cannot be evaluated" % name)
        return
    compare(rep, X, before, snapshot(X, {name: r}), (), "evaluating " + name)
    entry(rep, X, v, r, z, name)
    rep.engine(X)


def sc_gear(rep, cls, opt, z):
    X = context()
    g = make(X, cls, opt)
    core = X.I.getattr(g, "gearcore")
    r = X.I.getattr(core, "shape_recipe")
    evaluate(rep, X, r, scalar("z") if z == "height" else D.num_const(0), "shape_recipe")


VEC = ("center", "orientation", "v_offs")


def sc_part(rep, name, how):
    X = context()
    r = part(X, name, how, "")
    if r is None:
        return rep.unk(name)
    evaluate(rep, X, r, scalar("z"), name)


def part(X, name, how, pre):
    mod = {"GearToothGenerator": None, "InvoluteTooth": "gearteeth", "OctoidTooth": "gearteeth", "OctoidUndercutTooth": "gearteeth",
           "CycloidTooth": "gearteeth"}.get(name)
    cls = X.name(name, mod) if mod else X.name(name)
    kw = {}
    for i, p in enumerate(fields(X, cls)):
        if p == "ref_limits":
            kw[p] = X.call(X.name("ToothLimitParam"), h_a=scalar(pre + "ref.h_a"), h_d=scalar(pre + "ref.h_d"), h_o=scalar(pre + "ref.h_o"))
            continue
        f = how == "function" or (how == "mixed" and i % 2 == 0) or (how == "other mixed" and i % 2 == 1)
        if p == "center":
            kw[p] = lam(X, "lambda z: (%d.25 * z + 1) * OUT" % (i + 1)) if f else point(pre + p)
        elif p == "orientation":
            kw[p] = lam(X, "lambda z: scp_Rotation.from_euler('z', z * %d.5).as_matrix()" % (i + 1)) if f else orient(pre + p)
        else:
            kw[p] = lam(X, "lambda z: %d.75 * z + %d" % (i + 2, i + 1)) if f else scalar(pre + p, 0, "+")
    return X.call(cls, **kw)


def fields(X, cls):
    try:
        return X.sig(cls)
    except AttributeError:
        out = []
        for k in reversed(cls.mro):
            for n in getattr(getattr(k, "node", None), "body", []):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id not in out:
                    out.append(n.target.id)
        return out


def sc_nested(rep, how):
    X = context()
    fl = how in ("function", "mixed")
    r = X.call(X.name("GearProfileRecipe"), tooth_generator=part(X, "InvoluteTooth", how, "tooth."), cone=part(X, "ConicDataRecipe", how, "cone."),
               limits=part(X, "ToothLimitParamRecipe", how, "limits."), pitch_angle=lam(X, "lambda z: 0.375 * z + 2") if fl else scalar("pitch_angle"),
               transform=part(X, "GearTransformRecipe", how, "transform."), fillet=part(X, "FilletDataRecipe", how, "fillet."))
    evaluate(rep, X, r, scalar("z"), "GearProfileRecipe")
    q = ask_(X, lambda: X.call(r, D.num_const(2)))
    if isinstance(q, Instance):
        # the value is a recipe of constants: evaluating it again changes nothing
        again = ask_(X, lambda: X.call(q, scalar("z")))
        if isinstance(again, Instance):
            entry(rep, X, again, q, scalar("z"), "value")
