"""C16: peak finding."""
import itertools, math
import numpy as np
from ..engine import Space, Violation, need

PROP = "C16"
LEVEL = "exploration"
RULE = ("S/N patterns are enumerated completely on short trial grids (all words over a small S/N alphabet x all patterns of close and distant neighbours x minimum S/Ns x radii), and all single spikes, pairs of spikes and "
        "heights on longer grids with fitted thresholds (all segment widths, numbers of deviations, minimum numbers of segments, polynomial degrees of a grid), all trial counts from 0; thresholds and groups are recomputed independently")
ASSUMPTIONS = ["points whose S/N is within 1e-6 of the fitted threshold are not classified (the constant threshold and the minimum S/N are tested exactly)",
               "equal-population segments are the documented ones: ceil(frequency span / segment width) segments of floor(points / segments) consecutive points",
               "the polynomial is the least squares one in log(frequency), compared at the trial frequencies"]


def percentile(v, q):
    v = sorted(v)
    k = (len(v) - 1) * q / 100.0
    i = int(math.floor(k))
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (k - i)


def threshold(f, s, T, smin, segwidth, nstd, minseg, polydeg):
    """(threshold at f, number of segments, ambiguous) or a constant threshold."""
    n = len(f)
    if n == 0:
        return np.zeros(0), 0, True
    x = abs(f[-1] - f[0]) / (segwidth / T)
    if abs(x - round(x)) < 1e-7 and round(x) >= 1:
        return None
    m = max(1, min(math.ceil(x), n))
    if m < minseg:
        return np.full(n, float(smin)), m, True
    p = n // m
    fc, tc = [], []
    for k in range(m):
        sl = slice(k * p, (k + 1) * p)
        fc.append(percentile(f[sl].tolist(), 50))
        ss = s[sl].tolist()
        tc.append(percentile(ss, 50) + nstd * (percentile(ss, 75) - percentile(ss, 25)) / 1.349)
    lx, lf = np.log(np.array(fc)), np.log(f)
    c, h = lx.mean(), max(np.ptp(lx) / 2, 1e-12)
    A = np.vander((lx - c) / h, polydeg + 1)
    co = np.linalg.lstsq(A, np.array(tc), rcond=None)[0]
    return np.vander((lf - c) / h, polydeg + 1) @ co, m, False


def make(case, S):
    from riptide.periodogram import Periodogram
    from riptide.metadata import Metadata
    P = np.array(case["periods"], dtype=float)
    S = np.asarray(S, dtype=np.float32).reshape(P.size, -1)
    nw = S.shape[1]
    widths = np.array([1, 2, 3, 5, 8][:nw])
    foldbins = np.array([10 + (i % 3) for i in range(P.size)], dtype=np.uint32)
    return Periodogram(widths, P, foldbins, S, Metadata({"tobs": float(case["T"]), "dm": case.get("dm", 12.5)}))


DEF = dict(smin=6.0, segwidth=5.0, nstd=6.0, minseg=10, polydeg=2, clrad=0.1)


def check(pg, kw, msg, ctx):
    from riptide import find_peaks
    par = dict(DEF)
    par.update(kw)
    keep = (pg.snrs.copy(), pg.periods.copy(), pg.foldbins.copy(), pg.widths.copy())
    res = find_peaks(pg, **kw)
    need(isinstance(res, tuple) and len(res) == 2, "%s: returned %s", msg, type(res))
    peaks, polycos = res
    for a, b in zip(keep, (pg.snrs, pg.periods, pg.foldbins, pg.widths)):
        need(a.tobytes() == b.tobytes(), "%s: input modified", msg)
    need(isinstance(peaks, list) and all(b.snr <= a.snr for a, b in zip(peaks, peaks[1:])), "%s: peaks not listed by decreasing S/N: %s", msg, [p.snr for p in peaks])
    need(sorted(int(k) for k in polycos) == list(range(len(pg.widths))), "%s: thresholds for widths %s", msg, sorted(polycos))
    f = pg.freqs
    T = pg.metadata["tobs"]
    for p in peaks:
        for a, t in (("period", float), ("freq", float), ("ducy", float), ("snr", float), ("width", int), ("iw", int), ("ip", int)):
            need(type(getattr(p, a)) is t, "%s: peak.%s has type %s", msg, a, type(getattr(p, a)))
        need(0 <= p.iw < len(pg.widths) and 0 <= p.ip < f.size, "%s: indices of %s", msg, p)
        need(p.width == pg.widths[p.iw], "%s: width of %s", msg, p)
        need(p.snr == float(pg.snrs[p.ip, p.iw]), "%s: S/N of %s, periodogram has %s", msg, p, pg.snrs[p.ip, p.iw])
        need(abs(p.period - pg.periods[p.ip]) <= 1e-12 * p.period and abs(p.freq * p.period - 1) < 1e-12, "%s: period of %s, periodogram has %s", msg, p, pg.periods[p.ip])
        need(abs(p.ducy - p.width / float(pg.foldbins[p.ip])) < 1e-12, "%s: duty cycle of %s (%s bins)", msg, p, pg.foldbins[p.ip])
        need(p.dm == pg.metadata["dm"] and (p.dm is None) == (pg.metadata["dm"] is None), "%s: DM of %s", msg, p)
    r = par["clrad"] / T
    total = 0
    for iw in range(len(pg.widths)):
        s = pg.snrs[:, iw].astype(float)
        th = threshold(f, s, T, par["smin"], par["segwidth"], par["nstd"], par["minseg"], par["polydeg"])
        if th is None:
            continue
        thr, m, const = th
        if f.size:
            got = np.polyval(np.asarray(polycos[iw], dtype=float), np.log(f))
            need(np.all(np.abs(got - thr) <= 1e-6 * (1 + np.abs(thr))), "%s, width %s: selection threshold differs from the definition by up to %s (%s segments)", msg, iw, np.abs(got - thr).max(), m)
        margin = 0.0 if const else 1e-6 * (1 + np.abs(thr))
        if not const and np.any(np.abs(s - thr) <= margin):
            continue
        sel = np.flatnonzero((s > thr) & (s > par["smin"]))
        mine = [p for p in peaks if p.iw == iw]
        need(len({p.ip for p in mine}) == len(mine), "%s, width %s: the same trial is reported twice: %s", msg, iw, [p.ip for p in mine])
        grp = []
        for k, i in enumerate(sel):
            if k == 0 or abs(f[sel[k - 1]] - f[i]) > r:
                grp.append([])
            grp[-1].append(int(i))
        gaps = np.abs(np.diff(f[sel]))
        if np.any(np.abs(gaps - r) <= 1e-9 * r + 1e-14 * f.max(initial=0)):
            continue
        tops = sorted(p.ip for p in mine)
        need(len(mine) == len(grp) and all(sum(t in g for t in tops) == 1 for g in grp), "%s, width %s: peaks at trials %s, significant groups are %s", msg, iw, tops, grp)
        for p in mine:
            g = next(g for g in grp if p.ip in g)
            need(p.snr == max(s[g]), "%s, width %s: the group %s peaks at S/N %s, reported %s at trial %s", msg, iw, g, max(s[g]), p.snr, p.ip)
        total += len(grp)
        ctx.outcome((m, const, tuple(map(tuple, grp))))
    ctx.ev(1, nontrivial=total > 0)


# ---------------------------------------------------------------- spaces

def periods_from_gaps(gaps, T, f0=5.0):
    """Trial periods whose frequencies decrease from f0 by the given gaps, in units of 1/T."""
    f = [f0]
    for g in gaps:
        f.append(f[-1] - g / T)
    return [1.0 / x for x in f]


def ev_words(case, ctx):
    n = case["n"]
    alpha = case["alpha"]
    for gaps in itertools.product((0.04, 0.3), repeat=max(0, n - 1)):
        c = dict(case, periods=periods_from_gaps(gaps, case["T"]))
        for word in itertools.product(alpha, repeat=n - len(case["head"])):
            w = list(case["head"]) + list(word)
            check(make(c, w), case["kw"], f"gaps {gaps}/T, S/N {w}, {case['kw']}", ctx)


def ev_widths(case, ctx):
    """Several trial widths: all words over two columns."""
    n, nw = case["n"], case["nw"]
    c = dict(case, periods=periods_from_gaps([0.04] * (n - 1), case["T"]))
    for word in itertools.product((1.0, 8.0, 9.0), repeat=n * nw):
        check(make(c, word), case["kw"], f"S/N {word} ({nw} widths), {case['kw']}", ctx)


def ev_long(case, ctx):
    n = case["n"]
    f = np.linspace(case["f"][0], case["f"][1], n)
    c = dict(case, periods=(1.0 / f).tolist())
    rng = np.random.RandomState(n + case["seed"])
    base = rng.normal(size=(n, case["nw"])) + case["slope"] * np.log(f)[:, None]
    step = case["step"]
    for a in range(0, n, step):
        for b in ([a] if not case["pair"] else sorted({a, min(n - 1, a + 1), min(n - 1, a + 2), min(n - 1, a + 5), min(n - 1, a + n // 3), n - 1})):
            for h in case["heights"]:
                S = base.copy()
                S[a] += h
                S[b] += h + (0.5 if b != a else 0.0)
                check(make(c, S), case["kw"], f"n={n}, spikes of {h} at {a}, {b}, freqs {case['f']}, T={case['T']}, {case['kw']}", ctx)
                if 0 < b - a <= 2 and h == case["heights"][-1]:
                    # nearly equal neighbours: the brighter one is the peak, wherever the threshold is lower
                    for delta in (1e-3, -1e-3):
                        S[b] = S[a] + delta
                        check(make(c, S), case["kw"], f"n={n}, spikes of {h} at {a}, {b} ({delta} higher), freqs {case['f']}, T={case['T']}, {case['kw']}", ctx)


def ev_large(case, ctx):
    """spikes at one in a few thousand trials of a large periodogram"""
    n = case["n"]
    f = np.linspace(case["f"][0], case["f"][1], n)
    c = dict(case, periods=(1.0 / f).tolist())
    S = np.random.RandomState(n).normal(size=(n, 2)) + 0.5 * np.log(f)[:, None]
    for i, k in enumerate(range(3, n, case["step"])):
        S[k, i % 2] += 9.0 + i % 5
        if i % 3 == 0 and k + 1 < n:
            S[k + 1, i % 2] = S[k, i % 2] + (0.01 if i % 2 else -0.01)
    S[0] += 12
    S[-1] += 13
    for kw in ({}, dict(clrad=0.5), dict(segwidth=20.0, nstd=4.0), dict(smin=11.0, polydeg=3)):
        check(make(c, S), kw, f"{n} trials, {case}, {kw}", ctx)


def ev_counts(case, ctx):
    n = case["n"]
    f = np.linspace(4.0, 2.0, max(n, 2))[:n]
    for patt in range(4):
        for nw in (1, 2):
            for dm in (None, 0.0, 10.0):
                S = {0: np.zeros((n, nw)), 1: np.full((n, nw), 10.0), 2: np.arange(n * nw).reshape(n, nw) % 17, 3: (np.arange(n * nw) ** 2 % 23).reshape(n, nw)}[patt]
                pg = make(dict(periods=(1.0 / f).tolist(), T=case["T"], dm=dm), S) if n else None
                if n == 0:
                    from riptide.periodogram import Periodogram
                    from riptide.metadata import Metadata
                    pg = Periodogram(np.arange(1, nw + 1), np.zeros(0), np.zeros(0, dtype=np.uint32), np.zeros((0, nw), dtype=np.float32), Metadata({"tobs": case["T"], "dm": dm}))
                check(pg, case["kw"], f"{n} trials, pattern {patt}, T={case['T']}, {case['kw']}", ctx)


def spaces(tier):
    deep = tier == "thorough"
    words = []
    for n in range(1, 6 if deep else 5):
        alpha = [0.0, 6.0, 6.5, 7.0, 9.0] if n < 5 else [0.0, 6.5, 7.0, 9.0]
        for kw in ({}, {"clrad": 0.5}, {"clrad": 0.01}, {"smin": 7.0, "clrad": 0.1}, {"smin": 6.5, "clrad": 0.05}):
            for h in ([[]] if n < 3 else [[a] for a in alpha]):
                words.append(dict(n=n, alpha=alpha, head=h, T=1000.0 if n != 2 else 37.0, kw=kw))
    # dynamic thresholds on short grids: one point per segment
    for n in (3, 4, 5) if deep else (3, 4):
        for kw in (dict(segwidth=0.01, minseg=2, polydeg=1, nstd=1.0, smin=3.0), dict(segwidth=0.01, minseg=3, polydeg=1, smin=6.0), dict(segwidth=0.01, minseg=n, polydeg=1, smin=2.0),
                   dict(segwidth=0.01, minseg=n + 1, polydeg=1, smin=2.0)):
            words.append(dict(n=n, alpha=[0.0, 4.0, 7.0, 9.0], head=[], T=10.0, kw=kw))
    widths = [dict(n=n, nw=nw, T=500.0, kw=kw) for n, nw in ((1, 2), (2, 2), (3, 2), (2, 3), (1, 5)) for kw in ({}, {"clrad": 0.02}, {"smin": 8.0})]
    long = []
    for n, f, T in ((50, (4.0, 2.0), 30.0), (120, (2.0, 0.5), 200.0), (400, (10.0, 1.0), 300.0), (60, (3.0, 1.0), 5.0), (300, (3.0, 1.0), 40.0)) + (((2000, (20.0, 0.5), 800.0), (333, (1.0, 0.05), 900.0)) if deep else ()):
        for kw in ({}, dict(segwidth=2.0, nstd=4.0), dict(segwidth=8.0, polydeg=1, minseg=3), dict(segwidth=3.3, polydeg=3, smin=4.0, clrad=1.0), dict(minseg=5, segwidth=11.0, nstd=2.5, smin=3.0, clrad=0.5), dict(minseg=1000),
                   dict(segwidth=1.7, minseg=1, nstd=3.0, smin=2.0)):
            for pair in (False, True):
                step = max(1, n // (100 if deep else 25)) if not pair else max(1, n // (40 if deep else 9))
                long.append(dict(n=n, f=f, T=T, kw=kw, pair=pair, step=step, heights=[4.0, 8.0, 20.0], nw=2 if n < 100 else 1, slope=1.5 if n % 3 else -1.0, seed=1))
    counts = [dict(n=n, T=T, kw=kw) for n in list(range(0, 33)) + [50, 99] for T in (1.0, 10.0, 1000.0)
              for kw in ({}, dict(minseg=1, polydeg=1, segwidth=0.3) if n >= 20 else dict(minseg=3 if n >= 3 else 10, polydeg=1), dict(smin=1.0, clrad=2.0))]
    # a fit of degree d needs more than d segments
    counts = [c for c in counts if not (c["kw"].get("minseg") == 1 and math.ceil(2.0 / (0.3 / c["T"])) <= 1)]
    return [Space("words", words, ev_words, "all S/N words and gap patterns"), Space("widths", widths, ev_widths, "all words over several trial widths"),
            Space("long", long, ev_long, "spikes on longer grids, fitted thresholds"), Space("large", [dict(n=n, f=fr, T=T, step=s, nw=2) for n, fr, T, s in ((5000, (5.0, 1.0), 1000.0, 371), (20000, (10.0, 0.1), 1500.0, 997), (70001, (2.0, 0.5), 9000.0, 4001), (131072, (20.0, 1.0), 5000.0, 1024))], ev_large, "large periodograms"),
            Space("counts", counts, ev_counts, "every number of trials from 0")]
