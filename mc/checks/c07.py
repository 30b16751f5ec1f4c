"""C07: S/N values of the search, noise calibration, preparation of the data."""
import math
import numpy as np
from .. import ref
from ..engine import Space, need
from .c06 import compare

PROP = "C07"
LEVEL = "exploration"
RULE = ("all combinations of series length, bins range, initial downsampling and data pattern up to a bound (and realistic sizes); an evaluation is one "
        "group (stage, bins) whose whole S/N block is compared with the reference; non-trivial if it has two or more trials")
ASSUMPTIONS = ["drift paths are those extracted from the implementation's FFA after structural validation (see C01)",
               "the noise variance of a stage may be the documented average over uniformly distributed bin edges or the exact average over its "
               "samples, within 1 percent", "float32 rounding of sums"]
_book = None


def book():
    global _book
    if _book is None:
        import riptide
        _book = ref.PathBook(riptide.ffa2)
    return _book


def data(kind, n):
    i = np.arange(n)
    rng = np.random.RandomState(n + 17)
    x = {"rand": rng.normal(size=n), "saw": (i * 37 % 23) - 11.0, "impulse0": (i == 0) * 50.0, "impulseL": (i == n - 1) * 50.0,
         "impulseM": (i == n // 2) * 50.0, "pulse": (i % 9 == 4) * 5.0 + rng.normal(size=n) * 0.3,
         "offset": rng.normal(size=n) + 3.0, "neg": -np.abs(rng.normal(size=n))}[kind]
    return x.astype(np.float32)


def var_range(N, f, used):
    if abs(f - 1) < 1e-12:
        return 1.0, 1.0
    m = math.floor(N / f)
    vals = [ref.noise_variance_formula(N, f)]
    k = np.arange(m)
    a = k * f
    e = np.minimum(a + f, N)
    i0 = np.floor(a)
    w0 = np.minimum(i0 + 1, e) - a
    i1 = np.minimum(np.floor(e), N)
    w1 = np.where(i1 > i0, e - i1, 0.0)
    full = np.maximum(i1 - i0 - 1, 0)
    v = w0 ** 2 + full + w1 ** 2
    vals += [float(v.mean()), float(v[:used].mean())]
    r = f - round(f)
    if abs(r) < 1e-9:
        vals = [float(v[:used].mean()), f]
    return min(vals) * 0.99, max(vals) * 1.01


def downsample_fast(x, f, m):
    """Exact area-weighted sums by a cumulative sum in long double."""
    c = np.concatenate(([0.0], np.cumsum(x.astype(np.longdouble))))
    def C(t):
        t = np.minimum(t, x.size)
        i = np.minimum(np.floor(t).astype(int), x.size - 1)
        return c[i] + (t - i) * x[i]
    e = np.arange(m + 1, dtype=np.longdouble) * np.longdouble(f)
    v = C(e)
    return (v[1:] - v[:-1]).astype(float)


def verify(x, tsamp, pmin, pmax, bmin, bmax, pg, what, ctx, maxgroups=None):
    """pg: periodogram of already prepared data x."""
    N = x.size
    segs = []
    compare(np.asarray(pg.periods), np.asarray(pg.foldbins), N, tsamp, pmin, pmax, bmin, bmax, what, segments=segs)
    widths = [int(w) for w in pg.widths]
    step = 1 if maxgroups is None else max(1, len(segs) // maxgroups)
    stage = {}
    for (k, tau, b, rows, i0, i1) in segs[::step]:
        if i1 == i0:
            continue
        f = tau / tsamp
        if k not in stage:
            m = max(math.floor(N / f), rows * b)
            if abs(f - 1) < 1e-12:
                y = x.astype(float)
            else:
                y = downsample_fast(x, f, m)
            stage[k] = y
        y = stage[k]
        tab = book().validated(rows)
        blk = y[:rows * b].reshape(rows, b)
        ns = i1 - i0
        prof = np.zeros((ns, b))
        cols = np.arange(b)
        for i in range(rows):
            prof += blk[i][(cols[None, :] + tab[:ns, i][:, None]) % b]
        U = ref.boxcar_snr_block(prof, widths) / math.sqrt(rows)
        G = np.asarray(pg.snrs[i0:i1], dtype=float)
        j = np.unravel_index(np.abs(U).argmax(), U.shape)
        mag = np.abs(blk).sum() / math.sqrt(rows) * 3e-7 * 30 + 1e-6
        scale = abs(U[j])
        if scale < 100 * mag and scale < 1e-3:
            need((np.abs(G) <= 1e-3 + 100 * mag).all(), "%s: S/N of a constant profile is %s", what, G.max())
            ctx.ev(1, 0)
            continue
        need(G[j] != 0 and U[j] / G[j] > 0, "%s: stage %d (f=%.6f), %d bins, %d rows: S/N %r where the reference is %r (before noise scaling)", what, k, f, b, rows, G[j], U[j])
        std = U[j] / G[j]
        lo, hi = var_range(N, f, rows * b)
        rel = 4 * mag / scale
        need(lo * (1 - rel) <= std ** 2 <= hi * (1 + rel),
             "%s: stage %d (f=%.6f), %d bins, %d rows: S/Ns are scaled as if the noise variance were %.5f, it is within [%.5f, %.5f]", what, k, f, b, rows, std ** 2, lo, hi)
        bad = np.argwhere(~(np.abs(G * std - U) <= mag * 2 + 3e-5 * np.abs(U)))
        if len(bad):
            s, w = bad[0]
            need(False, "%s: stage %d (f=%.6f), %d bins, %d rows, shift %d, width %d: S/N %r, expected %r", what, k, f, b, rows, s, widths[w], G[s, w], U[s, w] / std)
        ctx.ev(1, int(ns > 1))
        ctx.outcome((k, b, rows, round(float(U[j]), 3)))


def ev_values(case, ctx):
    import riptide
    N, bmin, bmax, ds, tsamp, kind = (case[k] for k in ("N", "bmin", "bmax", "ds", "tsamp", "kind"))
    x = data(kind, N)
    pmin = bmin * tsamp * ds
    while pmin < tsamp * bmin:
        pmin = float(np.nextafter(pmin, np.inf))
    pmax = pmin * case["mult"]
    ts = riptide.TimeSeries.from_numpy_array(x, tsamp)
    keep = x.copy()
    ts2, pg = riptide.ffa_search(ts, period_min=pmin, period_max=pmax, fpmin=1, bins_min=bmin, bins_max=bmax, ducy_max=case.get("ducy", 0.5),
                                 wtsp=case.get("wtsp", 1.5), deredden=False, already_normalised=True)
    what = f"search of {kind} data, N={N} tsamp={tsamp} period_min={pmin!r} period_max={pmax!r} bins {bmin}-{bmax}"
    need(np.array_equal(ts.data, keep) and np.array_equal(ts2.data, keep), "%s: data changed by the search", what)
    verify(x, tsamp, pmin, pmax, bmin, bmax, pg, what, ctx, maxgroups=case.get("maxgroups"))


def ev_huge(case, ctx):
    """long data: the whole periodogram against the public downsampling, transform and boxcar functions (checked on their own elsewhere)"""
    import riptide
    N, bmin, bmax, ds, tsamp = (case[k] for k in ("N", "bmin", "bmax", "ds", "tsamp"))
    x = data(case["kind"], N)
    pmin = bmin * tsamp * ds
    while pmin < tsamp * bmin:
        pmin = float(np.nextafter(pmin, np.inf))
    pmax = pmin * case["mult"]
    ts = riptide.TimeSeries.from_numpy_array(x, tsamp)
    _, pg = riptide.ffa_search(ts, period_min=pmin, period_max=pmax, fpmin=1, bins_min=bmin, bins_max=bmax, ducy_max=0.3, deredden=False, already_normalised=True)
    what = f"search of {case['kind']} data, N={N} tsamp={tsamp} period_min={pmin!r} period_max={pmax!r} bins {bmin}-{bmax}"
    segs = []
    compare(np.asarray(pg.periods), np.asarray(pg.foldbins), N, tsamp, pmin, pmax, bmin, bmax, what, segments=segs)
    stage = {}
    for (k, tau, b, rows, i0, i1) in segs:
        f = tau / tsamp
        if k not in stage:
            stage = {k: x if abs(f - 1) < 1e-12 else riptide.downsample(x, f)}
        U = riptide.boxcar_snr(riptide.ffa2(stage[k][:rows * b].reshape(rows, b))[:i1 - i0], pg.widths) / math.sqrt(rows)
        G = np.asarray(pg.snrs[i0:i1], dtype=float)
        j = np.unravel_index(np.abs(U).argmax(), U.shape)
        std = U[j] / G[j]
        lo, hi = var_range(N, f, rows * b)
        need(lo * 0.999 <= std ** 2 <= hi * 1.001, "%s: stage %d (f=%.6f), %d bins, %d rows: S/Ns are scaled as if the noise variance were %.5f, it is within [%.5f, %.5f]", what, k, f, b, rows, std ** 2, lo, hi)
        bad = np.argwhere(~(np.abs(G * std - U) <= 2e-3 + 1e-4 * np.abs(U)))
        need(len(bad) == 0, "%s: stage %d (f=%.6f), %d bins, %d rows: S/Ns at (shift, width) %s differ", what, k, f, b, rows, bad[:2].tolist())
        ctx.ev(1)
    ctx.outcome((N, bmin, bmax, ds, float(U[j])))


def ev_prep(case, ctx):
    """order and definition of the preparation, returned series, untouched input."""
    import riptide
    N, tsamp = case["N"], case["tsamp"]
    i = np.arange(N)
    x = (data("rand", N) * 2 + np.sin(i / N * 9) * 20 + 100 + 30 * (i > N * 0.7)).astype(np.float32)
    meta = {"source_name": "fake", "dm": 3.5, "extra": [1, 2]}
    ts = riptide.TimeSeries(x, tsamp, metadata=meta)
    kx, kmeta = x.copy(), dict(ts.metadata)
    kw = {}
    if case["deredden"] is not None:
        kw["deredden"] = case["deredden"]
    if case["norm"] is not None:
        kw["already_normalised"] = case["norm"]
    if case["width"] is not None:
        kw["rmed_width"] = case["width"]
    if case["minpts"] is not None:
        kw["rmed_minpts"] = case["minpts"]
    pmin, pmax, bmin, bmax = 16 * tsamp * 1.3, 16 * tsamp * 4.1, 16, 18
    out, pg = riptide.ffa_search(ts, period_min=pmin, period_max=pmax, fpmin=1, bins_min=bmin, bins_max=bmax, **kw)
    what = f"ffa_search(N={N}, tsamp={tsamp}, {kw})"
    exp = x.astype(float)
    if kw.get("deredden", True):
        w = int(round(kw.get("rmed_width", 4.0) / tsamp))
        exp = (x.astype(float) - ref.fast_running_median(x, w, kw.get("rmed_minpts", 101))).astype(np.float32).astype(float)
    if not kw.get("already_normalised", False):
        exp = (exp - exp.mean()) / exp.std()
    mag = np.abs(x).max() / (1.0 if kw.get("already_normalised", False) else max(1e-9, np.std(exp)))
    need(out.data.dtype == np.float32 and out.data.shape == (N,) and out.tsamp == tsamp, "%s: wrong series returned", what)
    bad = np.flatnonzero(~(np.abs(out.data - exp) <= 4e-6 * (np.abs(x).max() + np.abs(exp).max())))
    need(len(bad) == 0, "%s: the series searched is not the dereddened then normalised input: sample %s is %s, expected %s", what, bad[:1], out.data[bad[:1]], exp[bad[:1]])
    need(np.array_equal(ts.data, kx) and ts.data is not None and dict(ts.metadata) == kmeta and ts.tsamp == tsamp, "%s: the input was modified", what)
    for k, v in kmeta.items():
        need(pg.metadata[k] == v and out.metadata[k] == v, "%s: metadata %s not carried over", what, k)
    need(abs(pg.tobs - N * tsamp) < 1e-9 * N * tsamp, "%s: tobs %r", what, pg.tobs)
    # periodogram is that of the returned series
    o2, p2 = riptide.ffa_search(out, period_min=pmin, period_max=pmax, fpmin=1, bins_min=bmin, bins_max=bmax, deredden=False, already_normalised=True)
    need(np.array_equal(p2.snrs, pg.snrs) and np.array_equal(p2.periods, pg.periods), "%s: the periodogram is not that of the returned series", what)
    if kw.get("already_normalised") is not True:
        verify(out.data, tsamp, pmin, pmax, bmin, bmax, pg, what, ctx)
    ctx.ev(1)


def spaces(tier):
    th = tier == "thorough"
    vals = []
    kinds = ("rand", "saw", "impulse0", "impulseL", "impulseM", "offset", "pulse")
    for N in list(range(12, 64, 3 if not th else 1)) + [97, 128, 200]:
        for bmin, bmax in ((3, 3), (3, 5), (4, 5), (5, 8), (8, 9), (10, 13)):
            for ds in (1.0, 1.25, 1.5, 2.0, 2.7, 3.0):
                for kind in kinds if (th or N % 2 == 0) else ("rand", "offset"):
                    vals.append(dict(N=N, bmin=bmin, bmax=bmax, ds=ds, tsamp=1.0, kind=kind, mult=6.0))
    # exact and nearly integer factors in later stages: (bmax + 1) / bmin = 2, 1.5, 1.25
    for N in (64, 100, 257, 600):
        for bmin, bmax in ((4, 7), (8, 15), (8, 11), (4, 5), (8, 9), (10, 10), (6, 8)):
            for ds in (1.0, 2.0, 3.0, 2.0 - 1e-3, 2.0 + 1e-3, 1.0 + 1e-4, 4.0 / 3, 7.0, 1.999999999, 10.01):
                for tsamp in (1.0, 0.5, 64e-6, 1e-3):
                    vals.append(dict(N=N, bmin=bmin, bmax=bmax, ds=ds, tsamp=tsamp, kind="rand", mult=9.0, wtsp=1.1))
    real = [dict(N=N, bmin=bmin, bmax=bmax, ds=ds, tsamp=256e-6, kind="rand", mult=3.0, ducy=0.2, maxgroups=4 if not th else 12)
            for N in ((12000, 32768) if not th else (20000, 65536, 100001)) for bmin, bmax in ((240, 260), (64, 70), (128, 140)) for ds in (1.0, 1.4, 2.0, 5.3)]
    prep = [dict(N=N, tsamp=t, deredden=d, norm=n, width=w, minpts=mp)
            for N, t in ((1500, 0.01), (800, 0.1)) for d in (None, True, False) for n in (None, True, False)
            for w in (None, 1.0, 2.03, 0.5) for mp in (None, 7, 51)]
    huge = [dict(N=N, bmin=bmin, bmax=bmax, ds=ds, tsamp=t, kind=kind, mult=m) for N, bmin, bmax, ds, m in ((300007, 8, 9, 1.0, 1.4), (600000, 16, 17, 1.3, 2.1), (1 << 20, 4, 5, 1.0, 1.3), (1100000, 250, 251, 1.0, 1.05), (2000003, 20, 20, 3.0, 1.2))
            for t in (64e-6, 1.0) for kind in ("rand", "pulse")]
    return [Space("huge", huge, ev_huge, "long data, all groups and trials", batch=1, nproc=4), Space("values", vals, ev_values, "every S/N of every group of every search, small sizes", batch=4),
            Space("realistic", real, ev_values, "realistic sizes; evenly spaced groups, all their trials", batch=1),
            Space("preparation", prep, ev_prep, "dereddening and normalisation combinations", batch=1)]
