"""C27: trial width sequence."""
import itertools, math
from fractions import Fraction
import numpy as np
from ..engine import Space, Violation, HarnessError, need

PROP = "C27"
LEVEL = "exploration"
RULE = ("every number of bins up to a bound x a grid of maximum duty cycles x spacing factors: the width sequence follows the recurrence, strictly increasing, last one maximal; through searches, the S/N columns correspond to the "
        "widths one by one")
ASSUMPTIONS = ["a limit or product within 1e-9 of an integer is accepted rounded either way"]


def floors(x):
    """Possible floor values of a floating point product."""
    r = {math.floor(x)}
    if abs(x - round(x)) < 1e-9 * max(1, abs(x)):
        r |= {int(round(x)), int(round(x)) - 1}
    return r


def check_widths(w, bins, ducy, wtsp, msg):
    w = [int(x) for x in w]
    need(w and w[0] == 1, "%s: widths %s do not start at 1", msg, w)
    for a, b in zip(w, w[1:]):
        need(any(b == max(f, a + 1) for f in floors(wtsp * a)), "%s: width %s follows %s in %s", msg, b, a, w)
    lim = ducy * bins
    hi = max(1.0, lim) + 1e-9 * max(1, lim)
    need(w[-1] <= hi, "%s: width %s exceeds the limit %s", msg, w[-1], lim)
    nxt = min(max(f, w[-1] + 1) for f in floors(wtsp * w[-1]))
    nxt_hi = max(max(f, w[-1] + 1) for f in floors(wtsp * w[-1]))
    lo = max(1.0, lim) - 1e-9 * max(1, lim)
    need(nxt_hi > lo, "%s: widths %s stop too early, %s does not exceed the limit %s", msg, w, nxt, lim)


DUCY = [1e-3, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 1 / 3, 0.5, 0.7, 0.9, 0.999]
WTSP = [1.01, 1.1, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 10.0, 1.0000001]


def ev_grid(case, ctx):
    from riptide.ffautils import generate_width_trials
    for bins in case["bins"]:
        for d in DUCY:
            for w in WTSP:
                r = generate_width_trials(bins, ducy_max=d, wtsp=w)
                need(isinstance(r, np.ndarray) and r.ndim == 1 and np.issubdtype(r.dtype, np.integer), "bins %s: %r", bins, r)
                check_widths(r, bins, d, w, f"{bins} bins, ducy_max {d}, wtsp {w}")
                ctx.ev(1, nontrivial=r.size > 1)
        ctx.outcome(tuple(r))
    r = [int(x) for x in generate_width_trials(100)]
    need(r == [1, 2, 3, 4, 6, 9, 13, 19], "default widths for 100 bins: %s", r)


def ev_search(case, ctx):
    from riptide import ffa_search, TimeSeries, find_peaks
    from riptide.libffa import boxcar_snr, downsample, ffa2
    b, d, w = case["bins"], case["ducy"], case["wtsp"]
    n = 12 * b + 5
    x = np.random.RandomState(b).normal(size=n).astype(np.float32)
    x[3 * b // 2::b] += 2.0
    for bmax in (b, b + 1):
        ts = TimeSeries.from_numpy_array(x, 1.0, copy=True)
        kw = {}
        if d is not None:
            kw["ducy_max"] = d
        if w is not None:
            kw["wtsp"] = w
        msg = f"search with bins {b} to {bmax}, {kw}"
        dd, ww = (0.2 if d is None else d), (1.5 if w is None else w)
        if max(1, math.floor(dd * b)) >= b:
            continue
        _, pg = ffa_search(ts, period_min=float(b), period_max=1.5 * b, bins_min=b, bins_max=bmax, deredden=False, already_normalised=True, **kw)
        check_widths(pg.widths, b, dd, ww, msg)
        need(pg.snrs.shape == (len(pg.periods), len(pg.widths)), "%s: S/N of shape %s for %s trials and %s widths", msg, pg.snrs.shape, len(pg.periods), len(pg.widths))
        # first stage, not downsampled: each column is the boxcar S/N for its width
        rows = n // b
        k = int(np.sum(pg.periods[:rows] < b + 1)) if len(pg.periods) >= rows else len(pg.periods)
        T = ffa2(x[:rows * b].reshape(rows, b))
        sel = [i for i in range(min(k, rows)) if pg.foldbins[i] == b]
        for j, width in enumerate(pg.widths):
            ref = boxcar_snr(T[[0]], [int(width)], stdnoise=rows ** 0.5)[:, 0]
            need(abs(pg.snrs[0, j] - ref[0]) < 1e-3 * max(1, abs(ref[0])), "%s: S/N of the first trial for width %s (column %s) is %s, expected %s", msg, width, j, pg.snrs[0, j], ref[0])
        for p in find_peaks(pg, smin=3.0)[0]:
            need(p.width == pg.widths[p.iw], "%s: peak width %s, column %s is width %s", msg, p.width, p.iw, pg.widths[p.iw])
        ctx.ev(1, nontrivial=len(pg.widths) > 1)
        ctx.outcome((b, bmax, tuple(map(int, pg.widths))))


def spaces(tier):
    deep = tier == "thorough"
    N = 2000 if deep else 600
    grid = [dict(bins=list(range(k, min(N, k + 20)))) for k in range(1, N, 20)] + [dict(bins=[1000, 1024, 4096, 9999])]
    search = [dict(bins=b, ducy=d, wtsp=w) for b in (2, 3, 4, 5, 8, 10, 16, 25, 40, 100) + ((17, 60, 240) if deep else ()) for d in (None, 0.01, 0.1, 0.25, 0.5, 0.9) for w in (None, 1.01, 1.5, 2.0, 3.0)]
    return [Space("grid", grid, ev_grid, "all numbers of bins"), Space("search", search, ev_search, "widths and S/N columns of searches")]
