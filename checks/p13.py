"""Curve length and parametrisation are never stale."""
from .common import *
from . import curves as C
from .oracle import same

EXPLAIN = ("every public edit of every curve class is evaluated abstractly on arbitrary curves (as created, trimmed, reversed, trimmed and "
           "reversed); the points at parameters 0, 1 and in between and the length after the edit are compared, as value numbers, with "
           "the points before the edit and with what a fresh length computation of the edited curve gives")
RULE = ("ends: trimming at x puts the new end at the point formerly at x and keeps the other end; reverse: c'(x) = c(1-x), same length; "
        "stale: length and parametrisation after an edit equal those after recomputing them; length: the length is that of the current "
        "extent (line: distance of the ends, arc: radius times swept angle, others: between chord and polyline); pieces: chain edits keep "
        "every other piece and chain length is the sum of the active pieces; index: a chain parameter selects piece and place by length")
ASSUME = ["the length approximation is analysed at 4 sample points", "nurbezier evaluates the rational Bezier curve of its points and weights",
          "a location on a chain is analysed once for every piece it can lie on"]

SINGLE = ["LineCurve", "ArcCurve", "InvoluteCurve", "SphericalInvoluteCurve", "OctoidCurve", "CycloidCurve", "CycloidConicCurve",
          "TransformedCurve", "MirroredCurve", "RotatedCurve", "NurbCurve", "Curve", "TransformedCurve of NurbCurve"]
CHAINS = ["CurveChain", "NURBSCurve", "nested CurveChain", "CurveChain with inactive piece"]
EDITS = ["set_end_on", "set_start_on", "set_start_and_end_on", "reverse", "cut"]


def scenarios(tier):
    out = []
    for k in SINGLE:
        for how in C.TREAT:
            for e in EDITS:
                out.append(("%s %s: %s" % (k, how, e), "sc_single", (k, how, e)))
    for k in ("ArcCurve",):
        for how in C.TREAT:
            out.append(("%s %s: setters" % (k, how), "sc_arc", (k, how)))
    for how in C.TREAT:
        out.append(("NurbCurve %s: apply_transform" % how, "sc_nurb", (how,)))
    for k in CHAINS:
        for how in C.TREAT[:1] + C.TREAT[2:3]:
            for e in ("append", "insert", "pop", "__setitem__", "__delitem__", "extend", "del_inactive_curves", "reverse", "index", "insert first", "pop first",
                      "pop last", "__setitem__ first", "__setitem__ last", "__delitem__ first", "__delitem__ last"):
                out.append(("%s %s: %s" % (k, how, e), "sc_chain", (k, how, e)))
    for k in ("CurveChain", "NURBSCurve"):
        for e in ("set_start_on", "set_end_on", "set_start_and_end_on", "cut"):
            for i in range(3 if k == "CurveChain" else 2):
                for j in range(i, 3 if k == "CurveChain" else 2) if e == "set_start_and_end_on" else (i,):
                    for keep in (False, True):
                        out.append(("%s: %s on piece %d,%d%s" % (k, e, i, j, " keeping pieces" if keep else ""), "sc_trim", (k, e, i, j, keep)))
    for e in ("points", "enforce_continuity", "apply_transform"):
        out.append(("NURBSCurve: %s" % e, "sc_nurbs", (e,)))
    return out


def at(X, c, s):
    return ask_(X, lambda: X.call(c, s if not isinstance(s, (int, float)) else D.num_const(s)))


def length(X, c):
    return ask_(X, lambda: X.I.getattr(c, "length"))


def cmp(rep, rule, construct, a, b, what):
    if a is None or b is None or nterm(a) is None or nterm(b) is None:
        rep.unk("%s %s %s" % (rule, construct, what))
        return
    same(rep, rule, construct, a, b, what)


def where(c, m):
    f, _ = c.cls.lookup(m)
    return f.qual if f is not None else "%s.%s" % (c.cls.name, m)


def extent(rep, X, c, construct, what):
    """the reported length is that of the curve between parameter 0 and 1"""
    L = length(X, c)
    kind = [k.name for k in c.cls.mro]
    a, b = at(X, c, 0), at(X, c, 1)
    if L is None or a is None or b is None:
        return rep.unk("length " + what)
    if "LineCurve" in kind:
        d = X.I.binop("Sub", b, a)
        n = X.call(X.module_attr("numpy.linalg.norm"), d) if hasattr(X, "module_attr") else None
        if n is not None:
            return cmp(rep, "length", construct, L, n, what)
    n = 40
    ps = [nterm(at(X, c, i / n)) for i in range(n + 1)]
    t = nterm(L)
    if t is None or any(p is None for p in ps):
        return rep.unk("length " + what)
    ok = bad = 0
    for m in rint.models(6):
        try:
            l, o = rint.run(m, t)
            vs = []
            for p in ps:
                v, q = rint.run(m, p)
                vs.append(v)
                o |= q
        except (rint.Undef, RecursionError):
            continue
        if o or not isinstance(l, float) or any(not isinstance(v, list) or len(v) != 3 for v in vs):
            continue
        d = lambda x, y: sum((p - q) ** 2 for p, q in zip(x, y)) ** .5
        poly, chord = sum(d(x, y) for x, y in zip(vs, vs[1:])), d(vs[0], vs[-1])
        if chord * (1 - 1e-6) - 1e-9 <= l <= poly * 1.03 + 1e-9:
            ok += 1
        else:
            bad += 1
    r = False if bad >= 2 else (True if ok and not bad else None)
    rep.check(r, "length", construct, "the reported length %s is not the length between the ends of the curve (%s)" % (T.show(t)[:150], what), what)


def fresh(rep, X, c, construct, what):
    """recomputing length and parametrisation changes nothing"""
    L1, p1 = length(X, c), at(X, c, 0.375)
    ok, _ = X.guard(lambda: X.meth(c, "update_lengths"))
    if not ok:
        return rep.unk("stale " + what)
    cmp(rep, "stale", construct, L1, length(X, c), what + ": length after recomputing it")
    if not isinstance(p1, (ListV, Union)):
        cmp(rep, "stale", construct, p1, at(X, c, 0.375), what + ": point at 0.375 after recomputing the parametrisation")


def sc_single(rep, kind, how, edit):
    X = C.few(context())
    c = C.treat(X, C.mk(X, kind, ""), how)
    if c.cls.lookup(edit)[0] is None:
        return rep.unk("no " + edit)
    x, y = scalar("x", 0, "+"), scalar("y", 0, "+")
    w = where(c, edit)
    what = "%s %s" % (kind, how)
    b0, b1, bx, by = at(X, c, 0), at(X, c, 1), at(X, c, x), at(X, c, y)
    L0 = length(X, c)
    q = [at(X, c, v) for v in (0.25, 0.625)]
    args = {"set_end_on": [x], "set_start_on": [x], "set_start_and_end_on": [x, y], "reverse": [], "cut": [x]}[edit]
    ok, r = X.guard(lambda: X.meth(c, edit, *args))
    if not ok:
        return rep.unk("%s fails" % w)
    if edit == "cut":
        items = getattr(r, "items", None)
        if not items or len(items) != 2:
            return rep.unk("cut result")
        c1, c2 = items
        for k, s, want in ((c1, 0, b0), (c1, 1, bx), (c2, 0, bx), (c2, 1, b1)):
            cmp(rep, "ends", w, at(X, k, s), want, "%s: end %d of the %s part" % (what, s, "first" if k is c1 else "second"))
        for k in (c1, c2):
            fresh(rep, X, k, w, what)
        rep.engine(X)
        return
    a0, a1 = at(X, c, 0), at(X, c, 1)
    w0 = {"set_end_on": b0, "set_start_on": bx, "set_start_and_end_on": bx, "reverse": b1}[edit]
    w1 = {"set_end_on": bx, "set_start_on": b1, "set_start_and_end_on": by, "reverse": b0}[edit]
    cmp(rep, "ends", w, a0, w0, what + ": start")
    cmp(rep, "ends", w, a1, w1, what + ": end")
    extent(rep, X, c, w, what)
    if edit == "reverse":
        cmp(rep, "reverse", w, length(X, c), L0, what + ": length")
        for v, p in zip((0.75, 0.375), q):
            cmp(rep, "reverse", w, at(X, c, v), p, what + ": point inside")
        rep.check(r is c if isinstance(r, Instance) else None, "reverse", w, "does not return the curve", what)
    else:
        fresh(rep, X, c, w, what)
    rep.engine(X)


def sc_arc(rep, kind, how):
    X = C.few(context())
    c = C.treat(X, C.mk(X, kind, ""), how)
    R = scalar("R2", 1, "+")
    X.I.setattr(c, "radius", R)
    extent(rep, X, c, kind + ".radius", "radius set, " + how)
    fresh(rep, X, c, kind + ".radius", "radius set, " + how)
    L = length(X, c)
    p = at(X, c, 0.375)
    old = X.I.getattr(c, "center")
    new = C.vec("center2")
    X.I.setattr(c, "center", new)
    cmp(rep, "stale", kind + ".center", length(X, c), L, "centre set, " + how)
    cmp(rep, "ends", kind + ".center", at(X, c, 0.375), X.I.binop("Sub", X.I.binop("Add", p, new), old), "centre set, " + how)
    rep.engine(X)


def sc_nurb(rep, how):
    X = C.few(context())
    c = C.treat(X, C.mk(X, "NurbCurve", ""), how)
    tr = C.transform(X, "tr.")
    b0, b1 = at(X, c, 0), at(X, c, 1)
    w = where(c, "apply_transform")
    ok, r = X.guard(lambda: X.meth(c, "apply_transform", tr))
    if not ok:
        return rep.unk(w)
    for s, b in ((0, b0), (1, b1)):
        cmp(rep, "ends", w, at(X, c, s), X.call(tr, b), "end %d, %s" % (s, how))
    fresh(rep, X, c, w, how)
    extent(rep, X, c, w, how)
    rep.engine(X)


# ------------------------------------------------------------------ chains
def pieces(X, c):
    l = X.I.getattr(c, "curves")
    return list(l.items) if isinstance(l, ListV) and l.items is not None else None


def active(X, p):
    v = ask_(X, lambda: X.I.getattr(p, "active"))
    return bool(v.const) if isinstance(v, Num) and v.const is not None else (v.v if isinstance(v, Const) and isinstance(v.v, bool) else None)


def total(X, ps):
    t = T.ZERO
    for p in ps:
        a = active(X, p)
        if a is None:
            return None
        if a:
            l = length(X, p)
            if l is None or nterm(l) is None:
                return None
            t = T.add(t, nterm(l))
    return t


def chain_length(rep, X, c, w, what):
    ps = pieces(X, c)
    if ps is None:
        return rep.unk("pieces " + what)
    L = length(X, c)
    t0 = nterm(L) if L is not None else None
    for p in ps:
        if active(X, p) and p.cls.lookup("update_lengths")[0] is not None:
            X.guard(lambda p=p: X.meth(p, "update_lengths"))
    t1 = total(X, ps)
    if t0 is None or t1 is None:
        return rep.unk("chain length " + what)
    rep.check(rint.eq(t0, t1), "pieces", w, "the length of the chain is %s, of its active pieces %s (%s)" % (T.show(t0)[:120], T.show(t1)[:120], what), what)


def ends(X, p):
    return [at(X, p, 0), at(X, p, 1)]


def sc_chain(rep, kind, how, edit):
    X = C.few(context())
    c = C.mk(X, kind, "")
    if how == "reversed":
        X.meth(c, "reverse")
    ps = pieces(X, c)
    if ps is None:
        return rep.unk("pieces of " + kind)
    what = "%s %s" % (kind, how)
    new = C.nurb(X, "new.") if kind == "NURBSCurve" else C.line(X, "new.")
    if edit == "index":
        return index(rep, X, c, what)
    edit, _, pos = edit.partition(" ")
    if c.cls.lookup(edit)[0] is None:
        return rep.unk("no " + edit)
    w = where(c, edit)
    e = {p: ends(X, p) for p in ps}
    k = {"": 1, "first": 0, "last": len(ps) - 1}[pos]
    one = D.num_const(-1 if pos == "last" else k)
    gone = ps[k] if pos else ps[-1]
    args, want = {"append": ([new], ps + [new]), "insert": ([one, new], ps[:k] + [new] + ps[k:]),
                  "pop": ([one] if pos else [], [p for p in ps if p is not gone]),
                  "__setitem__": ([one, new], ps[:k] + [new] + ps[k + 1:]), "__delitem__": ([one], ps[:k] + ps[k + 1:]),
                  "extend": ([ListV((new,))], ps + [new]), "reverse": ([], ps[::-1]),
                  "del_inactive_curves": ([], [p for p in ps if active(X, p)])}[edit]
    ok, r = X.guard(lambda: X.meth(c, edit, *args))
    if not ok:
        return rep.unk(w + " fails")
    now = pieces(X, c)
    if now is None:
        return rep.unk("pieces after " + w)
    rep.check([id(p) for p in now] == [id(p) for p in want], "pieces", w,
              "the chain has not the expected pieces afterwards (%d of %d)" % (len(now), len(want)), what)
    if edit == "pop":
        rep.check(r is gone if isinstance(r, Instance) else None, "pieces", w, "does not return the removed piece", what)
    for p in now:
        if p in e and active(X, p):
            a, b = ends(X, p), e[p]
            if edit == "reverse":
                b = b[::-1]
            for k in (0, 1):
                if a[k] is not None and b[k] is not None and nterm(a[k]) is not None and nterm(b[k]) is not None:
                    cmp(rep, "reverse" if edit == "reverse" else "pieces", w, a[k], b[k], "%s: end %d of a piece" % (what, k))
    chain_length(rep, X, c, w, what)
    if edit == "reverse":
        rep.check(r is c if isinstance(r, Instance) else None, "reverse", w, "does not return the chain", what)
    rep.engine(X)


def index(rep, X, c, what):
    ps = pieces(X, c)
    act = [i for i, p in enumerate(ps) if active(X, p)]
    w = where(c, "get_s_index")
    Ls = [nterm(length(X, p)) if active(X, p) else T.ZERO for p in ps]
    if any(l is None for l in Ls):
        return rep.unk("index " + what)
    tot = T.ZERO
    for l in Ls:
        tot = T.add(tot, l)
    for name, s in (("start", D.num_const(0)), ("end", D.num_const(1)), ("inside", scalar("s", 0, "+"))):
        r = ask_(X, lambda: X.meth(c, "get_s_index", s))
        it = getattr(r, "items", None)
        if not it or len(it) != 2 or any(nterm(v) is None for v in it):
            rep.unk("index %s %s" % (name, what))
            continue
        ok = bad = 0
        msg = ""
        for m in rint.models(12):
            try:
                k, o1 = rint.run(m, nterm(it[0]))
                u, o2 = rint.run(m, nterm(it[1]))
                sv, o3 = rint.run(m, s.term)
                ls = [rint.run(m, l)[0] for l in Ls]
            except (rint.Undef, RecursionError):
                continue
            if o1 or o2 or not isinstance(k, float) or not isinstance(u, float):
                continue
            k = int(round(k))
            good = 0 <= k < len(ps) and k in act and abs((sum(ls[:k]) + u * ls[k]) - sv * sum(ls)) <= 1e-6 * max(1.0, sum(ls)) \
                and (-1e-6 <= u <= 1 + 1e-6)
            if good:
                ok += 1
            else:
                bad += 1
                msg = "piece %d at %.3f for parameter %.3f of lengths %s" % (k, u, sv, ["%.2f" % l for l in ls])
        rep.check(False if bad >= 2 else (True if ok and not bad else None), "index", w, "%s (%s, %s)" % (msg, name, what), "%s %s" % (name, what))
    rep.engine(X)


def sc_trim(rep, kind, edit, i, j, keep):
    X = C.few(context())
    c = C.mk(X, kind, "")
    w = where(c, edit)
    u = [scalar("u", 0, "+"), scalar("v", 0, "+")]
    ps = pieces(X, c)
    if ps is None:
        return rep.unk("pieces")
    P0 = {"u": at(X, ps[i], u[0]), "v": at(X, ps[j], u[1])}
    E = [ends(X, p) for p in ps]
    calls = []
    inner = X.I.call_hook

    def hook(f, env):
        if f.qual.split(".")[-1] == "get_s_index":
            s = env.d.get([a.arg for a in f.node.args.args][1])
            d = getattr(s, "deps", frozenset())
            calls.append(d)
            return TupleV((D.num_const(j if "b" in d else i), u[1] if "b" in d else u[0]))
        return inner(f, env) if inner else None
    X.I.call_hook = hook
    a, b = scalar("a"), scalar("b")
    args = [a, b] if edit == "set_start_and_end_on" else [a]
    kw = {"preserve_inactive_curves": T_(1)} if keep else {}
    ok, r = X.guard(lambda: X.meth(c, edit, *args, **kw))
    if not ok:
        return rep.unk(w + " fails")
    if not calls:
        return rep.unk(w + " does not look the location up")
    what = "%s piece %d,%d%s" % (kind, i, j, " keeping pieces" if keep else "")

    def look(ch, lo, hi, start, end):
        q = pieces(X, ch)
        if q is None:
            return rep.unk("pieces")
        live = [p for p in q if active(X, p)]
        rep.check(len(live) == hi - lo + 1, "pieces", w, "%d active pieces instead of %d (%s)" % (len(live), hi - lo + 1, what), what)
        rep.check(len(q) == (len(ps) if keep else hi - lo + 1), "pieces", w, "%d pieces instead of %d (%s)" % (len(q), len(ps) if keep else hi - lo + 1, what), what)
        if len(live) != hi - lo + 1:
            return
        for n, p in enumerate(live):
            s0, s1 = E[lo + n]
            cmp(rep, "ends", w, at(X, p, 0), start if n == 0 else s0, "%s: start of piece %d" % (what, n))
            cmp(rep, "ends", w, at(X, p, 1), end if n == hi - lo else s1, "%s: end of piece %d" % (what, n))
        chain_length(rep, X, ch, w, what)
    last = len(ps) - 1
    if edit == "set_start_on":
        look(c, i, last, P0["u"], E[last][1])
    elif edit == "set_end_on":
        look(c, 0, i, E[0][0], P0["u"])
    elif edit == "set_start_and_end_on":
        look(c, i, j, P0["u"], P0["v"])
    else:
        it = getattr(r, "items", None)
        if not it or len(it) != 2:
            return rep.unk("cut")
        look(it[0], 0, i, E[0][0], P0["u"])
        look(it[1], i, last, P0["u"], E[last][1])
    rep.engine(X)


def sc_nurbs(rep, edit):
    X = C.few(context())
    c = C.mk(X, "NURBSCurve", "")
    if edit == "points":
        w = "NURBSCurve.points"
        ok, _ = X.guard(lambda: X.I.setattr(c, "points", C.pts("new.points7", 7)))
    elif edit == "apply_transform":
        w = where(c, edit)
        ps = pieces(X, c)
        E = [ends(X, p) for p in ps]
        tr = C.transform(X, "tr.")
        ok, _ = X.guard(lambda: X.meth(c, edit, tr))
        if ok:
            for e, p in zip(E, pieces(X, c)):
                for k in (0, 1):
                    cmp(rep, "ends", w, at(X, p, k), X.call(tr, e[k]), "end %d of a piece" % k)
    else:
        w = where(c, edit)
        ok, _ = X.guard(lambda: X.meth(c, edit))
    if not ok:
        return rep.unk(w)
    chain_length(rep, X, c, w, edit)
    rep.engine(X)
