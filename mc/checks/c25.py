"""C25: generated test signals."""
import itertools, math
import numpy as np
from ..engine import Space, Violation, HarnessError, need

PROP = "C25"
LEVEL = "exploration"
RULE = ("all combinations of lengths, periods, initial phases, duty cycles, amplitudes, noise levels and random states against the von Mises formula evaluated in extended precision; the half-maximum points, "
        "the position of the maximum and the periodicity are also checked directly on finely sampled trains; generated time series over a grid of lengths in seconds and sampling times")
ASSUMPTIONS = ["at least one sample lies where the pulse profile is not negligible (otherwise the amplitude cannot be defined)", "numpy's global random state is the source of the noise"]

LD = np.longdouble


def reference(n, period, phi0, ducy, amp):
    k = LD(math.log(2.0)) / (2 * np.sin(LD(math.pi) * LD(ducy) / 2) ** 2)
    ph = np.arange(n, dtype=LD) / LD(period) - LD(phi0)
    ph = ph - np.floor(ph)
    s = np.exp(k * (np.cos(2 * LD("3.14159265358979323846") * ph) - 1))
    norm = np.sqrt((s ** 2).sum())
    return s * (LD(amp) / norm), k, s, norm


def tolerance(n, period, k, s, amp, norm, phi0):
    # phase error of double arithmetic, times the slope of the pulse
    dphi = 4e-16 * (n / period + abs(phi0) + 1) * 2 * math.pi
    slope = float(np.sqrt(k)) * 1.0
    return float(amp / norm) * (slope * dphi + float(k) * 4e-16 + 1e-14) * 4 + 1e-300


def call(fn, seed, *a, **k):
    np.random.seed(seed)
    return np.asarray(fn(*a, **k))


def ev_signal(case, ctx):
    from riptide import libffa
    from riptide import TimeSeries
    gen = libffa.generate_signal
    for n, period, phi0, ducy, amp in case["params"]:
        ref, k, s, norm = reference(n, period, phi0, ducy, amp)
        if not s.max() > 1e-6:
            ctx.extra["negligible"] += 1
            continue
        msg = f"generate_signal({n}, {period}, phi0={phi0}, ducy={ducy}, amplitude={amp})"
        tol = tolerance(n, period, k, s, amp, norm, phi0) / min(1.0, float(s.max()))
        x = call(gen, 1, n, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=0.0)
        need(x.shape == (n,), "%s: shape %s", msg, x.shape)
        d = np.abs(x - ref)
        need(bool((d <= tol).all()), "%s without noise: sample %d is %r, expected %r", msg, int(d.argmax()), float(x[d.argmax()]), float(ref[d.argmax()]))
        l2 = float(np.sqrt((x.astype(LD) ** 2).sum()))
        need(abs(l2 - amp) <= 1e-9 * abs(amp) + 1e-300, "%s: L2 norm %r", msg, l2)
        for sd in case["stds"]:
            for seed in case["seeds"]:
                y = call(gen, seed, n, period, phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=sd)
                z = call(gen, seed, n, period, phi0=phi0, ducy=ducy, amplitude=0.0, stdnoise=sd)
                u = call(gen, seed, n, period, phi0=phi0, ducy=ducy, amplitude=0.0, stdnoise=1.0)
                e = np.abs(y - z - x)
                need(y.shape == (n,) and bool((e <= 1e-12 * (np.abs(y) + np.abs(z) + abs(amp))).all()), "%s, noise %s, random state %s: noisy - pure noise differs from the noiseless signal by %r", msg, sd, seed, float(e.max()))
                e = np.abs(z - sd * u)
                need(bool((e <= 1e-12 * (np.abs(z) + sd)).all()), "%s: noise of standard deviation %s is not %s times that of 1", msg, sd, sd)
                np.random.seed(seed)
                need(n < 2 or len(set(u.tolist())) == n, "%s: repeated noise samples", msg)
                ctx.ev(1)
        ctx.ev(1)
        ctx.outcome((n, period, phi0, ducy, amp, x.tobytes()[:4096]))


def ev_defaults(case, ctx):
    from riptide.libffa import generate_signal as gen
    for n, period in case["params"]:
        ref, k, s, norm = reference(n, period, 0.5, 0.02, 10.0)
        if not s.max() > 1e-6:
            continue
        x = call(gen, 3, n, period, stdnoise=0)
        need(bool((np.abs(x - ref) <= tolerance(n, period, k, s, 10.0, norm, 0.5) / min(1.0, float(s.max()))).all()), "generate_signal(%s, %s, stdnoise=0) differs from phi0=0.5, ducy=0.02, amplitude=10", n, period)
        a = call(gen, 3, n, period)
        b = call(gen, 3, n, period, 0.5, 0.02, 10.0, 1.0)
        need(a.tobytes() == b.tobytes(), "generate_signal(%s, %s): defaults", n, period)
        ctx.ev(1)
        ctx.outcome((n, period))


def ev_shape(case, ctx):
    """Directly: maximum at phi0, half maximum half a width away on either side, periodic, even."""
    from riptide.libffa import generate_signal as gen
    per, m, phi0, ducy = case["period"], case["turns"], case["phi0"], case["ducy"]
    n = per * m
    x = call(gen, 1, n, float(per), phi0=phi0, ducy=ducy, amplitude=7.0, stdnoise=0.0)
    msg = f"generate_signal({n}, {per}, phi0={phi0}, ducy={ducy})"
    X = x.reshape(m, per)
    need(bool((np.abs(X - X[0]) <= 1e-9 * X.max()).all()), "%s: not periodic", msg)
    c = (phi0 % 1.0) * per
    pk = int(X[0].argmax())
    dist = abs(pk - c) % per
    need(min(dist, per - dist) <= 1.0, "%s: maximum at phase %s", msg, pk / per)
    # half-maximum crossings, linear interpolation around the maximum
    y = np.roll(X[0], per // 2 - pk)
    mx = X.max()
    above = np.where(y >= mx / 2)[0]
    width = len(above)
    need(above.max() - above.min() + 1 == width, "%s: several pulses per period", msg)
    need(abs(width - ducy * per) <= 2.0, "%s: full width at half maximum is %s periods", msg, width / per)
    ctx.ev(1)
    ctx.outcome((per, m, phi0, ducy))


def ev_noise(case, ctx):
    """First moments of the noise over long series (fixed random states: deterministic)."""
    from riptide.libffa import generate_signal as gen
    n = 40000
    for sd in case["stds"]:
        z = call(gen, case["seed"], n, 100.0, amplitude=0.0, stdnoise=sd)
        need(abs(z.mean()) < 6 * sd / math.sqrt(n), "noise of standard deviation %s: mean %s", sd, z.mean())
        need(abs(z.std() / sd - 1) < 6 / math.sqrt(2 * n), "noise of standard deviation %s: standard deviation %s", sd, z.std())
        r = float((z[1:] * z[:-1]).mean()) / sd ** 2
        need(abs(r) < 6 / math.sqrt(n), "noise of standard deviation %s: lag-1 correlation %s", sd, r)
        ctx.ev(1)
        ctx.outcome((sd, case["seed"]))


def ev_tseries(case, ctx):
    from riptide import TimeSeries
    for length, tsamp in case["lt"]:
        n = int(math.floor(length / tsamp + 0.5))
        q = length / tsamp
        if abs(q - math.floor(q) - 0.5) < 1e-6 or n < 1:
            continue
        for per, phi0, ducy, amp, sd in case["params"]:
            period = per * length
            kw = dict(phi0=phi0, ducy=ducy, amplitude=amp, stdnoise=sd)
            ref, k, s, norm = reference(n, period / tsamp, phi0, ducy, amp)
            if not s.max() > 1e-6:
                continue
            msg = f"TimeSeries.generate({length}, {tsamp}, {period}, {kw})"
            np.random.seed(11)
            ts = TimeSeries.generate(length, tsamp, period, **kw)
            need(ts.nsamp == n and ts.data.shape == (n,), "%s: %s samples instead of %s", msg, ts.nsamp, n)
            need(ts.tsamp == tsamp and abs(ts.length - n * tsamp) <= 1e-12 * length, "%s: sampling time %s, length %s", msg, ts.tsamp, ts.length)
            need(ts.data.dtype == np.float32, "%s: %s data", msg, ts.data.dtype)
            m = ts.metadata
            want = dict(source_name="fake", signal_period=period, signal_initial_phase=phi0, signal_duty_cycle=ducy, dm=None, mjd=None, skycoord=None, fname=None)
            for key, v in want.items():
                need(m[key] == v and (m[key] is None) == (v is None), "%s: metadata %s is %r instead of %r", msg, key, m[key], v)
            need(abs(m["tobs"] - n * tsamp) <= 1e-12 * length, "%s: metadata tobs is %r", msg, m["tobs"])
            need(str(m["signal_shape"]).lower().replace("-", " ") == "von mises", "%s: signal shape %r", msg, m["signal_shape"])
            np.random.seed(11)
            noise = np.random.normal(size=n, loc=0.0, scale=sd) if sd else np.zeros(n)
            tot = np.asarray(ref, dtype=float) + noise
            if sd == 0:
                tol = tolerance(n, period / tsamp, k, s, amp, norm, phi0) / min(1.0, float(s.max())) + 6.1e-8 * np.abs(tot)
                need(bool((np.abs(ts.data - tot) <= tol + 1e-37).all()), "%s: samples differ from the formula", msg)
            else:
                np.random.seed(11)
                nz = TimeSeries.generate(length, tsamp, period, phi0=phi0, ducy=ducy, amplitude=0.0, stdnoise=sd)
                d = np.abs(ts.data.astype(float) - nz.data - ref)
                need(bool((d <= 2e-7 * (np.abs(ts.data) + np.abs(nz.data) + abs(amp))).all()), "%s: noisy - pure noise differs from the noiseless signal by %s", msg, float(d.max()))
            ctx.ev(1, nontrivial=n > 1)
            ctx.outcome((length, tsamp, period, phi0, ducy, amp, sd, n))


def ev_tsdefaults(case, ctx):
    from riptide import TimeSeries
    for length, tsamp, period in case["p"]:
        np.random.seed(5)
        a = TimeSeries.generate(length, tsamp, period)
        np.random.seed(5)
        b = TimeSeries.generate(length, tsamp, period, phi0=0.5, ducy=0.02, amplitude=10.0, stdnoise=1.0)
        need(a.data.tobytes() == b.data.tobytes() and a.metadata["signal_duty_cycle"] == 0.02 and a.metadata["signal_initial_phase"] == 0.5, "TimeSeries.generate(%s, %s, %s): defaults", length, tsamp, period)
        ctx.ev(1)
        ctx.outcome((length, tsamp, period))


def chunks(l, k):
    return [l[i:i + k] for i in range(0, len(l), k)]


def spaces(tier):
    deep = tier == "thorough"
    N = [1, 2, 3, 7, 64, 1000] + ([5, 16, 100, 333, 4096, 20001] if deep else [4096])
    P = [2.0, 3.7, 16.0, 99.99, 640.0] + ([1.0, 5.0, 31.25, 1234.5, 5000.0] if deep else [5000.0])
    PH = [0.0, 0.25, 0.5, 0.999, 1.0, 1.3, -0.2] + ([0.1, 0.75, 7.5, -3.25] if deep else [])
    D = [0.01, 0.02, 0.1, 0.5, 0.9] + ([0.005, 0.05, 0.25, 0.75, 1.0] if deep else [])
    A = [0.0, 1.0, 10.0, 1e-3] + ([1e4, 123.4, -5.0] if deep else [1e4])
    params = list(itertools.product(N, P, PH, D, A))
    params.sort(key=lambda t: t[0])
    sig = [dict(params=c, stds=[1.0, 0.25] + ([5.0, 1e-3] if deep else []), seeds=[0, 7]) for c in chunks(params, 35)]
    defs = [dict(params=list(itertools.product([64, 100, 5000], [4.0, 33.3, 128.0])))]
    shape = [dict(period=p, turns=m, phi0=f, ducy=d) for p in (1000, 4001) for m in (1, 3) for f in PH for d in (0.01, 0.02, 0.05, 0.1, 0.3, 0.5, 0.7)]
    noise = [dict(stds=[1e-3, 0.5, 1.0, 3.0, 1e4], seed=s) for s in range(16 if deep else 4)]
    LT = list(itertools.product([0.5, 1.0, 3.3, 10.0, 7.77], [1e-3, 0.01, 1.0 / 64, 0.1, 0.3] + ([64e-6] if deep else [])))
    tsp = list(itertools.product([0.11, 0.5, 1.0, 1.7], [0.0, 0.3, 0.5], [0.02, 0.2], [5.0, 50.0], [0.0, 1.0, 0.2]))
    return [Space("signal", sig, ev_signal, note="formula, L2 norm, additivity and scaling of the noise"),
            Space("defaults", defs, ev_defaults),
            Space("shape", shape, ev_shape, note="maximum, half-maximum width, periodicity measured on the samples"),
            Space("noise", noise, ev_noise),
            Space("tseries", [dict(lt=[l], params=tsp) for l in LT], ev_tseries),
            Space("tsdefaults", [dict(p=[(10.0, 0.01, 1.0), (3.0, 0.001, 0.3), (100.0, 0.1, 7.7)])], ev_tsdefaults)]
