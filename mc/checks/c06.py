"""C06: the grid of trial periods."""
import itertools, math
import numpy as np
from .. import ref
from ..engine import Space, Violation, need, expect_raises

PROP = "C06"
LEVEL = "exploration"
RULE = ("all combinations of series length, bins range, initial downsampling, maximum period and sampling time up to a bound; an evaluation is "
        "one search whose whole list of trial periods is compared with the reference grid; non-trivial if it has trials from two or more groups")
ASSUMPTIONS = ["a trial within a relative 1e-9 of period_max, and a number of samples or stages within 1e-9 of an integer, may fall on either side"]
E1 = 1e-9


def stage_groups(N, tsamp, pmin, pmax, bmin, bmax):
    """Yields (tau, bins, [acceptable numbers of rows]) in order."""
    f0 = pmin / (tsamp * bmin)
    g = (bmax + 1.0) / bmin
    k = 0
    while True:
        f = f0 * g ** k
        tau = f * tsamp
        if tau * bmin >= pmax * (1 + E1):
            return
        q = N / f
        ns = {math.floor(q)}
        if abs(q - round(q)) < E1 * max(1.0, q):
            ns |= {round(q), round(q) - 1}
        if max(ns) < bmin:
            return
        for b in range(bmin, bmax + 1):
            if tau * b >= pmax * (1 + E1):
                break
            yield k, tau, b, sorted({n // b for n in ns})
        k += 1


def group_periods(tau, b, rows, pmax):
    """(definite, optional) trial periods of one group, in order; rows >= 2."""
    s = np.arange(rows, dtype=float)
    x = b - s / (rows - 1)
    # below b + 1 bins: b^2 / x < b + 1, decided exactly: b (rows-1) > s (b+1)  <=>  s (b+1) < b (rows-1)
    keep = np.arange(rows) * (b + 1) < b * (rows - 1)
    p = tau * b * b / x
    d = p[keep & (p < pmax * (1 - E1))]
    o = p[keep & (p >= pmax * (1 - E1)) & (p < pmax * (1 + E1))]
    return d, o


def compare(periods, foldbins, N, tsamp, pmin, pmax, bmin, bmax, what, segments=None):
    pos = 0
    groups = 0
    n = len(periods)
    for k, tau, b, rowset in stage_groups(N, tsamp, pmin, pmax, bmin, bmax):
        err = None
        for rows in sorted(rowset, reverse=True):
            if rows < 2:
                got = pos
                err = None
                break
            d, o = group_periods(tau, b, rows, pmax)
            seg = periods[pos:pos + len(d)]
            fb = foldbins[pos:pos + len(d)]
            if len(seg) == len(d) and (fb == b).all() and np.allclose(seg, d, rtol=1e-10, atol=0):
                got = pos + len(d)
                j = 0
                while j < len(o) and got < n and foldbins[got] == b and abs(periods[got] - o[j]) <= 1e-10 * o[j]:
                    got += 1
                    j += 1
                groups += 1
                if segments is not None:
                    segments.append((k, tau, b, rows, pos, got))
                err = None
                break
            bad = np.flatnonzero((np.abs(seg - d[:len(seg)]) > 1e-10 * d[:len(seg)]) | (fb != b)) if len(seg) else []
            i = bad[0] if len(bad) else len(seg)
            err = (f"{what}: trial {pos + i} should be period {d[i]!r} with {b} bins (stage {k}, {rows} rows, trial {i} of this group); "
                   f"got {(float(periods[pos + i]), int(foldbins[pos + i])) if pos + i < n else 'nothing'}")
        if err:
            raise Violation(err)
        pos = got
    if pos != n:
        raise Violation(f"{what}: {n - pos} unexpected trials after the grid is complete, first: period {float(periods[pos])!r} with {int(foldbins[pos])} bins")
    if n:
        need((np.diff(periods) > 0).all(), "%s: trial periods are not strictly increasing at %s", what, np.flatnonzero(np.diff(periods) <= 0)[:3])
        need(periods[0] >= pmin * (1 - 1e-12), "%s: first period %r is below period_min", what, float(periods[0]))
        need(periods[-1] < pmax * (1 + E1), "%s: last period %r is not below period_max", what, float(periods[-1]))
    return groups


def search(N, tsamp, pmin, pmax, bmin, bmax, **kw):
    import riptide
    x = ((np.arange(N) * 7919 + 13) % 101 / 50.0 - 1.0).astype(np.float32)
    ts = riptide.TimeSeries.from_numpy_array(x, tsamp)
    args = dict(period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, deredden=False, already_normalised=True, fpmin=1)
    args.update(kw)
    return riptide.ffa_search(ts, **args)


def one(N, tsamp, ds, mult, bmin, bmax, ctx):
    pmin = bmin * tsamp * ds
    while pmin < tsamp * bmin:      # rounding: must not be below bins_min samples
        pmin = np.nextafter(pmin, np.inf)
    pmin = float(pmin)
    pmax = mult if mult > 1e200 else pmin * mult
    _, pg = search(N, tsamp, pmin, pmax, bmin, bmax)
    what = f"search of {N} samples of {tsamp}, period_min={pmin!r}, period_max={pmax!r}, bins {bmin}-{bmax}"
    g = compare(np.asarray(pg.periods), np.asarray(pg.foldbins), N, tsamp, pmin, pmax, bmin, bmax, what)
    need(pg.snrs.shape == (len(pg.periods), len(pg.widths)) and len(pg.foldbins) == len(pg.periods), "%s: inconsistent shapes", what)
    f = pg.freqs
    need(np.allclose(f * pg.periods, 1.0, rtol=1e-12), "%s: freqs are not 1/periods", what)
    ctx.ev(1, int(g > 1))
    return len(pg.periods)


def ev_small(case, ctx):
    bmin, bmax = case["bmin"], case["bmax"]
    for N in case["Ns"]:
        for ds in case["ds"]:
            tot = 0
            for mult in case["mults"]:
                tot += one(N, case["tsamp"], ds, mult, bmin, bmax, ctx)
            ctx.outcome((N, ds, tot, bmin, bmax))


def ev_tie(case, ctx):
    """rows - 1 a multiple of bins + 1: the last trial below bins + 1 must be excluded exactly."""
    b, k = case["b"], case["k"]
    N = (k * (b + 1) + 1) * b
    tot = 0
    for N2 in (N, N + b - 1, N + 1):
        for tsamp in (1.0, 0.5, 1e-3):
            for bmax in (b, b + 2, b + 5):
                tot += one(N2, tsamp, 1.0, (b + 3.2) / b, b, bmax, ctx)
    ctx.outcome((b, k, tot))


def ev_fpmin(case, ctx):
    """documented: fpmin places a cap on period_max equal to DATA_LENGTH / fpmin."""
    N, fpmin, bmin, bmax = case["N"], case["fpmin"], 8, 10
    kw = {} if fpmin == "default" else {"fpmin": fpmin}
    fp = 8 if fpmin == "default" else fpmin
    T = float(N)
    pmin, pmax = 8.0, T * case["frac"]
    import riptide
    x = np.ones(N, dtype=np.float32)
    ts = riptide.TimeSeries.from_numpy_array(x, 1.0)
    args = dict(period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, deredden=False, already_normalised=True)
    cap = min(pmax, T / fp)
    what = f"fpmin={fpmin}, {N} s of data, period_max={pmax}"
    if cap <= pmin:
        cap = pmin
    try:
        _, pg = riptide.ffa_search(ts, **args, **kw)
        periods, foldbins = np.asarray(pg.periods), np.asarray(pg.foldbins)
    except ValueError:
        need(cap <= pmin, "%s: refused", what)
        ctx.ev(1)
        return
    try:
        if cap > pmin:
            compare(periods, foldbins, N, 1.0, pmin, cap, bmin, bmax, what)
        else:
            need(len(periods) == 0, "%s: trials above DATA_LENGTH / fpmin", what)
    except Violation as v:
        # recorded finding if (and only if) the cap is ignored altogether
        compare(periods, foldbins, N, 1.0, pmin, pmax, bmin, bmax, what)
        if len(periods) and periods.max() > cap:
            ctx.finding("fpmin-ignored", f"{what}: trial periods up to {periods.max():.3f} s > data length / fpmin = {cap:.3f} s")
        else:
            raise v
    ctx.ev(1)
    ctx.outcome((fpmin, N, len(periods)))


BASE = dict(N=200, tsamp=1.0, period_min=20.0, period_max=40.0, bins_min=10, bins_max=12)
BAD = [dict(period_min=40.0), dict(period_min=41.0), dict(period_max=20.0), dict(period_max=1.0), dict(period_max=0.0), dict(period_max=-1.0),
       dict(bins_min=1, bins_max=1), dict(bins_min=1), dict(bins_min=0), dict(bins_max=9), dict(bins_max=1), dict(bins_max=0),
       dict(bins_min=21, bins_max=25), dict(bins_min=20.0001), dict(tsamp=2.0001), dict(tsamp=0.0), dict(tsamp=-1.0), dict(period_min=0.0), dict(period_min=-5.0),
       dict(period_min=9.999), dict(ducy_max=1.5), dict(ducy_max=10.0), dict(bins_min=-3), dict(bins_min=2, ducy_max=1.0),
       dict(period_min=-40.0, period_max=-20.0), dict(tsamp=1e9), dict(bins_min=13), dict(period_min=1e300), dict(period_min=40.0, period_max=40.0)]


def ev_bad(case, ctx):
    a = dict(BASE)
    a.update(case["change"])
    N, tsamp, pmin, pmax, bmin, bmax = (a.pop(k) for k in ("N", "tsamp", "period_min", "period_max", "bins_min", "bins_max"))
    def call():
        r = search(case["N"], tsamp, pmin, pmax, bmin, bmax, **a)[1]
        return f"{len(r.periods)} trials"
    excs = (ValueError, TypeError) if (isinstance(bmin, float) or bmin < 0) else ValueError
    expect_raises(excs, call, f"search with invalid {case['change']} (N={case['N']})")
    ctx.ev(1)


def spaces(tier):
    th = tier == "thorough"
    small = []
    mults = [1.0001, 1.3, 2.0, 3.7, 12.0, 1e4, 1e300]
    for bmin in range(2, 8 if not th else 11):
        for bmax in range(bmin, bmin + 4):
            for tsamp in (1.0, 1e-3):
                for j in range(8):
                    small.append(dict(bmin=bmin, bmax=bmax, tsamp=tsamp, ds=[1.0, 1.3, 2.0, 2.5, 5.03], mults=mults,
                                      Ns=list(range(1 + j, 100 if not th else 200, 8))))
    large = [dict(bmin=bmin, bmax=bmax, tsamp=t, ds=[ds], mults=[m], Ns=[N])
             for (bmin, bmax) in ((240, 260), (64, 71), (128, 128), (30, 60), (16, 200))
             for N in (5000, 65536, 100003) + ((1 << 18,) if th else ()) for t in (256e-6, 1.0) for ds in (1.0, 1.7, 3.0) for m in (1.5, 4.0, 1e6)]
    return [Space("small", small, ev_small, "all small lengths x bins ranges x initial downsampling x period_max (also far beyond the data) x sampling time", batch=1),
            Space("ties", [dict(b=b, k=k) for b in range(2, 70 if not th else 130) for k in (1, 2, 3)], ev_tie, "rows - 1 multiple of bins + 1", batch=1),
            Space("large", large, ev_small, "realistic sizes, including the default bins range", batch=1),
            Space("fpmin", [dict(N=N, fpmin=f, frac=fr) for N in (100, 200, 333) for f in (1, 2, 5, 8, 20, "default") for fr in (0.1, 0.4, 0.9, 1.5)], ev_fpmin,
                  "cap at data length / fpmin"),
            Space("refused", [dict(change=c, N=N) for c in BAD for N in (200, 15, 1)], ev_bad, "invalid requests, also with data too short to search")]
