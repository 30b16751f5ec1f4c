"""C15: one-dimensional friends-of-friends clustering."""
import itertools
import numpy as np
from ..engine import Space, Violation, need

PROP = "C15"
LEVEL = "exploration"
RULE = ("every sequence of up to n values of a small grid (hence every order and every pattern of ties and gaps), for every radius of a list around the possible gaps; the groups are compared with connected "
        "components of the neighbour relation, and with the groups found when the same values are declared sorted, increasing and decreasing")
ASSUMPTIONS = ["values are exactly representable, so that gaps and radii compare exactly"]


def components(x, r):
    o = sorted(range(len(x)), key=lambda i: x[i])
    out = []
    for k, i in enumerate(o):
        if k == 0 or x[i] - x[o[k - 1]] > r:
            out.append(set())
        out[-1].add(i)
    return {frozenset(c) for c in out}


def groups(cl, n, msg):
    need(isinstance(cl, (list, tuple)), "%s: returned %s", msg, type(cl))
    ix = [[int(i) for i in c] for c in cl]
    flat = sorted(i for c in ix for i in c)
    need(flat == list(range(n)), "%s: indices %s are not each in exactly one group", msg, ix)
    need(all(ix) or not n, "%s: empty group in %s", msg, ix)
    return {frozenset(c) for c in ix}


def check(x, r, ctx):
    from riptide.clustering import cluster1d
    keep = x.copy()
    n = x.size
    msg = f"values {x.tolist() if n < 20 else n} ({x.dtype}), radius {r}"
    exp = components(x.tolist(), r)
    got = groups(cluster1d(x, r), n, msg)
    need(got == exp, "%s: groups %s, expected %s", msg, sorted(map(sorted, got)), sorted(map(sorted, exp)))
    for rev in (False, True):
        y = np.sort(x)
        if rev:
            y = y[::-1]
        expy = components(y.tolist(), r)
        for kw in ({"already_sorted": True}, {}):
            g = groups(cluster1d(y, r, **kw), n, f"{msg}, sorted {'decreasing' if rev else 'increasing'} {kw}")
            need(g == expy, "%s, sorted %s %s: groups %s, expected %s", msg, "decreasing" if rev else "increasing", kw, sorted(map(sorted, g)), sorted(map(sorted, expy)))
    need(x.tobytes() == keep.tobytes(), "%s: input modified", msg)
    ctx.ev(1, nontrivial=len(exp) > 1)
    ctx.outcome((tuple(sorted(map(tuple, map(sorted, exp)))),))


def ev(case, ctx):
    n = case["n"]
    grid = case["grid"]
    for tail in itertools.product(range(len(grid)), repeat=n - len(case["head"])):
        x = np.array([grid[i] for i in list(case["head"]) + list(tail)], dtype=case.get("dtype", "f8"))
        for r in case["radii"]:
            check(x, r, ctx)


def ev_empty(case, ctx):
    from riptide.clustering import cluster1d
    for dt in ("f8", "f4", "i8"):
        for srt in (False, True):
            r = cluster1d(np.zeros(0, dtype=dt), case["r"], already_sorted=srt)
            need(len(r) == 0, "empty input gives %s", r)
            ctx.ev(1)


def ev_long(case, ctx):
    """Long inputs: every single position of one gap, and of two gaps."""
    n, r = case["n"], 0.5
    for a in range(n):
        for b in range(a, n) if case["two"] else (a,):
            x = np.arange(n) * 0.5
            x[a:] += 0.25
            x[b:] += 0.25
            perm = (np.arange(n) * 7919) % n if n % 7919 else np.arange(n)
            check(x[perm], r, ctx)


def ev_large(case, ctx):
    n = case["n"]
    rng = np.random.RandomState(n)
    gaps = rng.randint(1, 9, size=n) * 0.25
    x = np.cumsum(gaps)
    for r in (0.2, 0.25, 1.0, 1.75, 1.99, 2.0):
        for perm in (None, rng.permutation(n)):
            check(x if perm is None else x[perm], r, ctx)


def spaces(tier):
    deep = tier == "thorough"
    cases = []
    grid = [0.0, 1.0, 2.0, 4.0, 7.0]
    R = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0, 100.0]
    for n in range(1, 8 if deep else 7):
        heads = [[]] if n < 4 else list(itertools.product(range(5), repeat=2))
        for h in heads:
            cases.append(dict(n=n, head=list(h), grid=grid, radii=R if n < 6 or deep else [0.0, 1.0, 1.5, 2.0, 3.0]))
    other = []
    for g, R2, dt in (([-3.5, -1.25, -1.0, 0.0, 2.0], [0.0, 0.25, 1.0, 2.0, 2.25, 2.5], "f8"), ([1.0, 1.0009765625, 1.001953125, 1.5], [0.0, 0.0009765625, 0.001, 0.5], "f4"), ([0, 1, 3, 6], [0, 1, 2, 2.5, 3], "i8"),
                      ([1e-9, 2e-9, 1e9, 2e9], [0.0, 0.9e-9, 1.1e-9, 1e9, 0.9e9, 1.1e9], "f8")):
        for n in range(1, 7 if deep else 6):
            other.append(dict(n=n, head=[], grid=g, radii=R2, dtype=dt))
    long = [dict(n=n, two=n < (120 if deep else 40)) for n in (7, 16, 33, 100, 257, 1000)]
    return [Space("grid", cases, ev, "all sequences over five values"), Space("others", other, ev, "other grids and data types"), Space("empty", [dict(r=r) for r in (0.0, 1.0)], ev_empty, "empty input"),
            Space("large", [dict(n=n) for n in (4097, 20000, 65537, 70001)] + ([dict(n=300007)] if deep else []), ev_large, "very long inputs"), Space("long", long, ev_long, "long inputs with one or two gaps")]
