"""C22: recovery of a periodic pulse, end to end."""
import itertools, logging, math
import numpy as np
from ..engine import Space, Violation, HarnessError, need

PROP = "C22"
LEVEL = "exploration"
RULE = ("noiseless pulse trains (box and von Mises) at all combinations of search configurations x periods (geometric grid over the searched range, both ends, and both sides of every place where the search changes its resolution) "
        "x phases x duty cycles, against the best boxcar S/N over all phases and widths of the individual samples folded exactly at the true period; the same with noise, de-reddening, normalisation and peak finding; "
        "scalings and offsets of the data")
ASSUMPTIONS = ["the pulse is at least 2.4 phase bins wide at the coarsest resolution of the search, and not wider than the search can be asked to try (pulses outside lose S/N by design)",
               "close means at least 82% of it for pulses of at least 3.3 bins (measured: 85%), 75% for narrower ones (measured: 81%), and 93% of that for fewer than 8 periods in the data: this allows for half a bin of drift, the discrete widths and the incomplete last period; at most 130% (averaging several samples into one bin reduces noise by more than their number suggests)",
               "the highest S/N is looked for within 1.25 pulse widths of drift, with at least 8 periods in the data",
               "a signal fills at least three periods", "peak finding is judged with at least 24 periods in the data (with fewer, a peak can dominate the segment of lowest frequencies and raise the dynamic threshold above itself)"]


def minratio(cfg, ducy, turns):
    return (0.82 if ducy * cfg[4] >= 3.3 else 0.75) * (0.93 if turns < 8 else 1.0)


MAXRATIO = 1.30

# samples, sampling time, period range, bins
CFG = [(8192, 1 / 64, 0.5, 8.0, 24, 26), (8192, 1 / 64, 0.5, 8.0, 30, 40), (4000, 0.01, 0.5, 3.0, 32, 35), (5000, 0.001, 0.05, 0.4, 48, 52), (20000, 0.005, 0.5, 20.0, 64, 70),
       (3000, 0.1, 2.5, 30.0, 24, 25), (4096, 0.01, 0.25, 12.0, 24, 30), (6007, 0.003, 0.11, 0.9, 33, 37), (6000, 0.01, 0.25, 8.0, 24, 48), (5000, 0.01, 0.25, 9.0, 24, 49), (4000, 0.02, 0.5, 6.0, 25, 80)]
DEEP = [(30011, 0.0011, 0.06, 8.0, 50, 55), (16384, 1 / 256, 1.0, 4.0, 240, 260), (2048, 0.02, 0.51, 10.0, 25, 35), (12288, 1e-4, 0.0025, 0.05, 24, 27)]


def train(n, ts, P, ph, ducy, shape):
    """Pulse train of unit L2 norm."""
    t = np.arange(n) * (ts / P) - ph
    if shape == "vm":
        k = math.log(2) / (2 * math.sin(math.pi * ducy / 2) ** 2)
        x = np.exp(k * (np.cos(2 * np.pi * t) - 1))
    else:
        def e(u):
            f = np.floor(u)
            return f * ducy + np.minimum(u - f, ducy)
        x = (e(t + ducy / 2 + ts / P) - e(t + ducy / 2)) / (ts / P)
    return x / math.sqrt((x ** 2).sum())


def best_boxcar(x, ts, P, wmax=0.6):
    """Best boxcar S/N over all windows of the samples sorted by exact phase, for unit noise."""
    n = len(x)
    o = np.argsort((np.arange(n) * (ts / P)) % 1.0, kind="stable")
    c = np.concatenate(([0.0], np.cumsum(np.tile(x[o].astype(float), 2))))
    best, k = -np.inf, 1
    while k < n * wmax:
        s = (c[k:k + n] - c[:n]).max()
        best = max(best, (s - k / n * c[n]) / math.sqrt(k * (1 - k / n)))
        k = max(k + 1, int(k * 1.05))
    return best


def run(x, cfg, ducy, prepared, rmed=None, minpts=51):
    from riptide import TimeSeries, ffa_search, Metadata
    n, ts, p0, p1, b0, b1 = cfg
    s = TimeSeries(np.asarray(x, dtype=np.float32), ts, metadata=Metadata(dict(dm=7.0, source_name="x")))
    kw = dict(deredden=False, already_normalised=True) if prepared else dict(rmed_width=rmed, rmed_minpts=minpts)
    return ffa_search(s, period_min=p0, period_max=p1, bins_min=b0, bins_max=b1, ducy_max=max(0.2, min(0.9, 1.5 * ducy * b1 / b0)), wtsp=1.5, fpmin=1, **kw)


def near(pg, P, T, ducy):
    return np.abs(pg.freqs - 1.0 / P) * T <= ducy


def plain_periods(cfg, deep):
    n, ts, p0, p1, b0, b1 = cfg
    out = [p0] + list(np.geomspace(p0, p1, 40 if deep else 16)[1:-1] * (1 + 1e-7)) + [p1]
    return out


def edge_periods(cfg):
    """Both sides of every place where the number of bins falls back (a new resolution)."""
    _, pg = run(np.zeros(cfg[0]), cfg, 0.2, True)
    out = []
    per, fb = np.asarray(pg.periods), np.asarray(pg.foldbins)
    for i in np.where(np.diff(fb.astype(int)) < 0)[0]:
        a, b = float(per[i]), float(per[i + 1])
        out += [a, b, 0.5 * (a + b)]
        if i > 1:
            out.append(float(per[i] + (per[i] - per[i - 1])))
    return sorted(set(p for p in out if cfg[2] <= p <= cfg[3]))


def exact(x, ts, P):
    """Best S/N in the whole data, and in its whole periods (the least a fold may be expected to use)."""
    n = len(x)
    ex = best_boxcar(x, ts, P)
    whole = int(math.floor(math.floor(n * ts / P * (1 + 1e-9)) * P / ts))
    return min(ex, best_boxcar(x[:whole], ts, P)) if n * ts / P < 16 else ex, ex


def ratio_check(pg, exs, P, T, ducy, cfg, msg, lo, ctx):
    ex, exmax = exs
    k = near(pg, P, T, ducy)
    need(bool(k.any()), "%s: no trial period within one pulse width of drift", msg)
    best = float(np.asarray(pg.snrs)[k].max())
    need(best >= lo * ex, "%s: best S/N of the trials around the period is %.3f, folding at the period gives %.3f", msg, best, ex)
    need(best <= MAXRATIO * exmax, "%s: best S/N of the trials around the period is %.3f, folding at the period only gives %.3f", msg, best, exmax)
    top = int(np.asarray(pg.snrs).max(axis=1).argmax())
    ctx.extra["ratio_percent_%d" % (int(best / ex * 50) * 2)] += 1
    return best, top


def ev_clean(case, ctx):
    logging.disable(logging.CRITICAL)
    cfg = tuple(case["cfg"])
    n, ts = cfg[:2]
    T = n * ts
    pers = plain_periods(cfg, case["deep"]) if case["kind"] == "grid" else edge_periods(cfg)
    if case["kind"] == "edges" and not pers:
        return
    pers = [p for i, p in enumerate(pers) if i % case["parts"] == case["part"]]
    for P in pers:
        if T / P < 3:
            continue
        for ph in case["phases"]:
            x = (20 * train(n, ts, P, ph, case["ducy"], case["shape"])).astype(np.float32)
            _, pg = run(x, cfg, case["ducy"], True)
            msg = f"{case['shape']} pulse of period {P!r}, phase {ph}, duty cycle {case['ducy']} in (samples, sampling time, periods, bins) {cfg}"
            best, top = ratio_check(pg, exact(x, ts, P), P, T, case["ducy"], cfg, msg, minratio(cfg, case["ducy"], T / P), ctx)
            f = float(pg.freqs[top])
            need(T / P < 8 or abs(f - 1 / P) * T <= 1.25 * case["ducy"], "%s: the highest S/N is at period %r", msg, 1 / f)
            ctx.ev(1)
            ctx.outcome((msg, round(best, 3)))


def ev_noisy(case, ctx):
    from riptide import find_peaks
    logging.disable(logging.CRITICAL)
    cfg = tuple(case["cfg"])
    n, ts = cfg[:2]
    T = n * ts
    pers = plain_periods(cfg, case["deep"])
    pers = [p for i, p in enumerate(pers) if i % case["parts"] == case["part"]]
    for P in pers:
        if T / P < 8:
            continue
        for ph in case["phases"]:
            x = np.random.RandomState(case["seed"]).normal(size=n) * case["std"] + case["std"] * case["amp"] * train(n, ts, P, ph, case["ducy"], case["shape"]) + case["base"]
            tso, pg = run(x, cfg, case["ducy"], False, rmed=6 * P)
            msg = f"{case['shape']} pulse of period {P!r}, phase {ph}, duty cycle {case['ducy']}, S/N {case['amp']} in noise {case['seed']}, in (samples, sampling time, periods, bins) {cfg}"
            both = exact(np.asarray(tso.data), ts, P)
            ex = both[0]
            ratio_check(pg, both, P, T, case["ducy"], cfg, msg, minratio(cfg, case["ducy"], T / P), ctx)
            ctx.ev(1)
            if T / P < 24:
                continue
            peaks, _ = find_peaks(pg)
            need(peaks, "%s: no peak", msg)
            f = peaks[0].freq
            at = abs(f - 1 / P) * T <= 1.25 * case["ducy"]
            need(at, "%s: top peak is at period %r, S/N %.2f", msg, peaks[0].period, peaks[0].snr)
            need(peaks[0].snr >= minratio(cfg, case["ducy"], T / P) * ex, "%s: top peak has S/N %.2f instead of about %.2f", msg, peaks[0].snr, ex)
            need(all(p.snr <= peaks[0].snr for p in peaks), "%s: the first peak is not the brightest", msg)
            ctx.extra["detected"] += 1
            ctx.outcome((msg, round(peaks[0].snr, 2)))


def ev_affine(case, ctx):
    logging.disable(logging.CRITICAL)
    cfg = tuple(case["cfg"])
    n, ts, p0, p1 = cfg[:4]
    P = math.sqrt(p0 * p1) * 1.01
    x = (np.random.RandomState(3).normal(size=n) + case["amp"] * train(n, ts, P, 0.3, 0.1, "vm")).astype(np.float32)
    _, ref = run(x, cfg, 0.1, False, rmed=6 * P)
    S = np.asarray(ref.snrs, dtype=float)
    for a in case["scales"]:
        for b in case["offsets"]:
            y = (x.astype(float) * a + b * a).astype(np.float32)
            _, pg = run(y, cfg, 0.1, False, rmed=6 * P)
            msg = f"data of amplitude {case['amp']} x {a} + {b * a}, in (samples, sampling time, periods, bins) {cfg}"
            need(np.asarray(pg.periods).tobytes() == np.asarray(ref.periods).tobytes() and np.asarray(pg.foldbins).tobytes() == np.asarray(ref.foldbins).tobytes() and
                 list(pg.widths) == list(ref.widths), "%s: trials differ", msg)
            d = np.abs(np.asarray(pg.snrs, dtype=float) - S).max()
            # rounding of the data to float32: relative precision of the largest value
            eps = 6e-8 * (abs(b) + 30) * math.sqrt(n) * 2
            if b == 0 and math.frexp(a)[0] == 0.5:
                eps = 1e-4
            need(d <= 2e-4 + eps, "%s: S/Ns differ by %s", msg, d)
            ctx.ev(1)
            ctx.outcome((msg, float(d) > 0))


def spaces(tier):
    deep = tier == "thorough"
    cfgs = CFG + (DEEP if deep else [])
    ducys = [0.1, 0.2, 0.35] + ([0.05, 0.075, 0.15, 0.27] if deep else [0.05])
    clean, noisy = [], []
    parts = 4 if deep else 2
    for kind, c, d, sh in itertools.product(("grid", "edges"), cfgs, ducys, ("vm", "box")):
        if d * c[4] < 2.4 or 1.2 * d * c[5] > 0.9 * c[4]:
            continue
        for part in range(parts):
            clean.append(dict(kind=kind, cfg=c, ducy=d, shape=sh, phases=[0.0, 0.31, 0.77] if not deep else [0.0, 0.13, 0.31, 0.5, 0.77, 0.93], deep=deep, part=part, parts=parts))
    for c, d, sh in itertools.product(cfgs, [x for x in ducys if x <= 0.2], ("vm", "box")):
        if d * c[4] < 2.4 or 1.2 * d * c[5] > 0.9 * c[4]:
            continue
        for seed, amp, std, base in [(1, 40.0, 1.0, 0.0), (2, 25.0, 7.3, 1000.0)] + ([(3, 80.0, 1e-3, -1.0), (4, 20.0, 1.0, 0.0)] if deep else []):
            for part in range(parts):
                noisy.append(dict(cfg=c, ducy=d, shape=sh, phases=[0.1, 0.6], seed=seed, amp=amp, std=std, base=base, deep=deep, part=part, parts=parts))
    aff = [dict(cfg=c, amp=a, scales=[1.0, 2.0, 0.25, 1024.0, 3.7, 1e-3, 1e6], offsets=[0.0, 1.0, -100.0, 5000.0]) for c in cfgs for a in (0.0, 30.0)]
    return [Space("clean", clean, ev_clean, note="noiseless trains, ratio to the exact fold"),
            Space("noisy", noisy, ev_noisy, note="with noise, preparation and peak finding"),
            Space("affine", aff, ev_affine, note="scaled and shifted data")]
