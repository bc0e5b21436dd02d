"""Value numbers: hash-consed linear combinations of words of (matrix/vector) atoms with commutative monomials.

A term is a tuple of ((word, mono), coef), sorted; word is a tuple of non-commuting atom ids (matrix words, possibly
ending in a vector atom), mono a sorted tuple of (scalar atom id, exponent).  Two program values with equal terms are
equal for all inputs (modulo the field axioms, the rotation-group axioms and congruence).
"""
import math

_atoms = {}
_atom_list = []
MAXMON = 48


def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append(key)
    return i


def atom_key(i):
    return _atom_list[i]


def _rc(c):
    if c == 0:
        return 0.0
    if isinstance(c, int):
        c = float(c)
    if not math.isfinite(c):
        return c
    m = float("%.10g" % c)
    r = round(m)
    if r and abs(m - r) < 1e-9 * abs(r):
        return float(r)
    return m


def _mk(d):
    items = []
    for k, c in d.items():
        c = _rc(c)
        if abs(c) > 1e-13:
            items.append((k, c))
    if len(items) > MAXMON:
        items.sort()
        return (((((), ((atom(("big", tuple(items))), 1),))), 1.0),)
    items.sort()
    return tuple(items)


ZERO = ()
ONE = ((((), ()), 1.0),)


def const(c):
    c = _rc(c)
    if c == 0:
        return ZERO
    return ((((), ()), c),)


def is_const(t):
    if t == ZERO:
        return 0.0
    if len(t) == 1 and t[0][0] == ((), ()):
        return t[0][1]
    return None


def scalar(key):
    return ((((), ((atom(key), 1),)), 1.0),)


def tensor(key):
    return ((((atom(key),), ()), 1.0),)


def add(a, b):
    d = dict(a)
    for k, c in b:
        d[k] = d.get(k, 0.0) + c
    return _mk(d)


def neg(a):
    return tuple((k, -c) for k, c in a)


def sub(a, b):
    return add(a, neg(b))


def _mm(m1, m2):
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    return tuple(sorted(d.items()))


def scale(a, c):
    return _mk({k: v * c for k, v in a})


def is_scalar(t):
    return all(k[0] == () for k, _ in t)


def mul(a, b):
    """elementwise/scalar product"""
    if a == ZERO or b == ZERO:
        return ZERO
    if len(a) * len(b) > 400:
        return app("mul", *sorted((a, b)))
    if not (is_scalar(a) or is_scalar(b)):
        return app_t("emul", *sorted((a, b)))
    d = {}
    for (w1, m1), c1 in a:
        for (w2, m2), c2 in b:
            k = (w1 or w2, _mm(m1, m2))
            d[k] = d.get(k, 0.0) + c1 * c2
    return _mk(d)


def inv(a):
    if a == ZERO:
        return app("inv", a)
    if len(a) == 1:
        (w, m), c = a[0]
        if w == () and c != 0 and math.isfinite(c):
            return ((((), tuple((x, -e) for x, e in m)), _rc(1.0 / c)),)
    if not is_scalar(a):
        return app_t("inv", a)
    c0 = a[0][1]
    if c0 in (0, 1.0) or not math.isfinite(c0):
        return app("inv", a)
    return scale(app("inv", scale(a, 1.0 / c0)), 1.0 / c0)


def div(a, b):
    c = is_const(b)
    if c:
        return scale(a, 1.0 / c)
    if a == b and a != ZERO:
        return ONE
    r = mul(a, inv(b))
    return r


def power(a, n):
    if isinstance(n, (int, float)) and float(n).is_integer() and 0 <= n <= 4:
        r = ONE
        for _ in range(int(n)):
            r = mul(r, a)
        return r
    if n == -1:
        return inv(a)
    return None


def app(name, *args):
    return ((((), ((atom(("app", name) + tuple(args)), 1),)), 1.0),)


def app_t(name, *args):
    return ((((atom(("app", name) + tuple(args)),), ()), 1.0),)


E3 = [tensor(("e", i)) for i in range(3)]
_e_ids = [atom(("e", i)) for i in range(3)]


def vec3(xs):
    r = ZERO
    for x, e in zip(xs, E3):
        r = add(r, mul(x, e))
    return r


def comp3(t, i):
    """component of a combination of basis vectors, or None"""
    d = {}
    for (w, m), c in t:
        if len(w) != 1 or w[0] not in _e_ids:
            return None
        if w[0] == _e_ids[i]:
            d[((), m)] = d.get(((), m), 0) + c
    return _mk(d)


# ---- matrices ---------------------------------------------------------------
def rot(axis, angle):
    """elementary rotation matrix about a named local axis"""
    if angle == ZERO:
        return ONE
    return tensor(("rot", axis, angle))


def _tr_atom(a):
    k = _atom_list[a]
    if k[0] == "rot":
        return atom(("rot", k[1], neg(k[2])))
    if k[0] == "T":
        return k[1]
    return atom(("T", a))


def transpose(t):
    d = {}
    for (w, m), c in t:
        k = (tuple(_tr_atom(a) for a in reversed(w)), m)
        d[k] = d.get(k, 0) + c
    return _mk(d)


_orth = set()


def mark_orth(t):
    for (w, m), c in t:
        for a in w:
            _orth.add(a)


def _is_orth(a):
    k = _atom_list[a]
    if k[0] == "rot":
        return True
    if k[0] == "T":
        return _is_orth(k[1])
    return a in _orth


def _simp(word):
    out = []
    for a in word:
        if out:
            b = out[-1]
            ka, kb = _atom_list[a], _atom_list[b]
            if ka[0] == "rot" and kb[0] == "rot" and ka[1] == kb[1]:
                out.pop()
                s = add(ka[2], kb[2])
                if s != ZERO:
                    out.append(atom(("rot", ka[1], s)))
                continue
            if ((ka[0] == "T" and ka[1] == b) or (kb[0] == "T" and kb[1] == a)) and _is_orth(a):
                out.pop()
                continue
            # rotation about z leaves e2 unchanged, etc.
            if kb[0] == "rot" and ka[0] == "e" and "xyz"[ka[1]] == kb[1]:
                out.pop()
                # re-check after dropping
                tail = _simp(tuple(out) + (a,))
                out = list(tail)
                continue
        out.append(a)
    return tuple(out)


def matmul(a, b):
    if len(a) * len(b) > 200:
        return app_t("matmul", a, b)
    d = {}
    for (w1, m1), c1 in a:
        for (w2, m2), c2 in b:
            k = (_simp(w1 + w2), _mm(m1, m2))
            d[k] = d.get(k, 0.0) + c1 * c2
    return _mk(d)


def show(t, depth=3):
    if t is None:
        return "?"
    if t == ZERO:
        return "0"
    out = []
    for (w, m), c in t:
        parts = []
        if c != 1.0 or not (w or m):
            parts.append("%g" % c)
        for a, e in m:
            s = show_atom(a, depth)
            parts.append(s if e == 1 else "%s^%s" % (s, e))
        if w:
            parts.append("@".join(show_atom(a, depth) for a in w))
        out.append("*".join(parts))
    return " + ".join(out)


def show_atom(a, depth):
    k = _atom_list[a]
    if depth <= 0:
        return "#%d" % a
    if k[0] == "app":
        return "%s(%s)" % (k[1], ", ".join(show(x, depth - 1) if isinstance(x, tuple) else str(x) for x in k[2:]))
    if k[0] == "T":
        return show_atom(k[1], depth) + "'"
    if k[0] == "rot":
        return "R%s(%s)" % (k[1], show(k[2], depth - 1))
    if k[0] == "e":
        return "e%d" % k[1]
    if k[0] == "big":
        return "big#%d" % a
    return "|".join(str(x) for x in k)
