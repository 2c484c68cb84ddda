"""Linear forms over symbols and convex sets of them: the numeric domain of the explorations that count.

A form is (terms, constant) with terms a sorted tuple of (symbol, coefficient).  A fact is a form known to be >= 0.
Symbols stand for whole numbers; one tagged 's' may be negative, every other one is at least 0."""
from functools import lru_cache
from math import gcd


def form(d, c):
    return (tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)), c)


def num(c):
    return ((), c)


def sym(a):
    return (((a, 1),), 0)


def add(x, y, k=1):
    d = dict(x[0])
    for a, q in y[0]:
        d[a] = d.get(a, 0) + k * q
    return form(d, x[1] + k * y[1])


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    return form({a: q * k for a, q in x[0]}, x[1] * k)


def const(x):
    return x[1] if not x[0] else None


def atoms(x):
    return {a for a, _ in x[0]}


def subst(x, m):
    """symbols replaced by forms"""
    r = num(x[1])
    for a, q in x[0]:
        r = add(r, m[a] if a in m else sym(a), q)
    return r


def inside(a):
    """symbols a composed symbol is made of"""
    if isinstance(a, tuple) and a and a[0] in ('fl', 'mod'):
        out = set(atoms(a[1]))
        if a[2] is not None:
            out |= atoms(a[2])
        return out
    return set()


def implied(a):
    if not isinstance(a, tuple) or not a:
        return []
    if a[0] == 's':
        return []
    s = sym(a)
    out = [s]
    if a[0] in ('fl', 'mod'):
        out.append(sub(a[1], s))
        if a[0] == 'mod' and a[2] is not None:
            out.append(add(sub(a[2], s), num(-1)))
    return out


def tight(row):
    d, c = row
    g = 0
    for q in d.values():
        g = gcd(g, abs(q))
    if g > 1:
        d = {a: q // g for a, q in d.items()}
        c = c // g
    return d, c


def refuted(rows, cap=400):
    """the facts contradict each other (None: too many to tell)"""
    rows = [tight((dict(t), c)) for t, c in rows]
    while True:
        for d, c in rows:
            if not d and c < 0:
                return True
        rows = [(d, c) for d, c in rows if d]
        if not rows:
            return False
        occ = {}
        for d, c in rows:
            for a, q in d.items():
                p, n = occ.get(a, (0, 0))
                occ[a] = (p + 1, n) if q > 0 else (p, n + 1)
        v = min(occ, key=lambda a: (occ[a][0] * occ[a][1] - occ[a][0] - occ[a][1], repr(a)))
        pos = [r for r in rows if r[0].get(v, 0) > 0]
        neg = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if not r[0].get(v, 0)]
        seen = {}
        for r in rest:
            k = tuple(sorted(r[0].items(), key=repr))
            seen[k] = min(seen.get(k, r[1]), r[1])
        for d1, c1 in pos:
            for d2, c2 in neg:
                k1, k2 = -d2[v], d1[v]
                d = {}
                for a, q in d1.items():
                    d[a] = d.get(a, 0) + k1 * q
                for a, q in d2.items():
                    d[a] = d.get(a, 0) + k2 * q
                d = {a: q for a, q in d.items() if q}
                d, c = tight((d, k1 * c1 + k2 * c2))
                k = tuple(sorted(d.items(), key=repr))
                seen[k] = min(seen.get(k, c), c)
        rows = [(dict(k), c) for k, c in seen.items()]
        if len(rows) > cap:
            return None


def closure(facts, want):
    """the facts that have to do with some symbols, with what their symbols imply"""
    have = set(want)
    out = []
    left = list(facts)
    done = set()
    while True:
        n = len(out)
        for a in list(have):
            if a not in done:
                done.add(a)
                out.extend(implied(a))
                have |= inside(a)
        keep = []
        for f in left:
            fa = atoms(f)
            if not fa or fa & have:
                out.append(f)
                have |= fa
            else:
                keep.append(f)
        left = keep
        if len(out) == n and have <= done:
            return out


@lru_cache(maxsize=200000)
def entails(facts, goal):
    """facts => goal >= 0"""
    c = const(goal)
    if c is not None and c >= 0:
        return True
    rows = closure(facts, atoms(goal)) + [add(scale(goal, -1), num(-1))]
    return refuted(rows) is True


@lru_cache(maxsize=200000)
def possible(facts):
    sy = set()
    for f in facts:
        sy |= atoms(f)
    return refuted(closure(facts, sy)) is not True


def equal(facts, x, y):
    return x == y or entails(facts, sub(x, y)) and entails(facts, sub(y, x))
