"""C03: downsampling by a real factor."""
import math
import numpy as np
from fractions import Fraction
from .. import ref
from ..engine import Space, Violation, need, expect_raises

PROP = "C03"
LEVEL = "exploration"
RULE = ("one case per (N, a, b): factor a/b and its two floating-point neighbours; an evaluation is one call compared "
        "sample by sample; non-trivial when the factor is not an integer dividing N")
ASSUMPTIONS = ["values agree within float32 rounding (2e-6 of the sum of magnitudes in the window)",
               "floor(N/f) may be taken on either side when N/f is within 1e-9 of an integer"]


def check_one(x, f, what, fn):
    N = x.size
    keep = x.copy()
    out = fn(x, f)
    out = np.asarray(out)
    need(out.dtype == np.float32 and out.ndim == 1, "%s: dtype %s ndim %d", what, out.dtype, out.ndim)
    # exact size, unless within rounding of a tie
    ex = Fraction(N) / Fraction(f)
    k = math.floor(ex)
    ok = {k}
    if ex - k < Fraction(1, 10 ** 9) and k > 1: ok.add(k - 1)
    if k + 1 - ex < Fraction(1, 10 ** 9): ok.add(k + 1)
    need(out.size in ok, "%s: %d output samples, expected %d", what, out.size, k)
    W = ref.ds_weights(N, f, out.size)
    exp = W @ x.astype(float)
    mag = W @ np.abs(x.astype(float))
    tol = 2e-6 * mag + 1e-6 * np.abs(x).max() * 1e-1 + 1e-30
    bad = np.argwhere(~(np.abs(out - exp) <= tol))
    need(len(bad) == 0, "%s: output sample %s is %s, expected %s", what, bad[:1].ravel().tolist(),
         out[bad[:1].ravel()].tolist(), exp[bad[:1].ravel()].tolist())
    need((x == keep).all(), "%s: input modified", what)
    return out


def inputs(N):
    i = np.arange(N)
    yield "ramp", (i + 1).astype(np.float32)
    yield "alt", np.where(i % 2, -7, 11).astype(np.float32) + (i % 5)
    yield "codes", ((i * 2654435761) % 997).astype(np.float32) - 498
    yield "first", (i == 0).astype(np.float32)
    yield "last", (i == N - 1).astype(np.float32)


def factors(a, b, N):
    f = a / b
    for g in (f, np.nextafter(f, 0), np.nextafter(f, 1e9)):
        if 1 < g <= N:
            yield float(g)


def ev_rat(case, ctx):
    import riptide
    N = case["N"]
    for a, b in case["fr"]:
        for f in factors(a, b, N):
            for name, x in inputs(N):
                out = check_one(x, f, f"downsample({name}[{N}], {f!r})", riptide.downsample)
                ctx.ev(1, 0 if (b == 1 and N % a == 0) else 1)
            ctx.outcome(out.tobytes() + x.tobytes())


def ev_impulse(case, ctx):
    """all impulses at once: the full weight matrix of the implementation."""
    import riptide
    N = case["N"]
    for a, b in case["fr"]:
        f = a / b
        m = None
        for i in range(N):
            x = np.zeros(N, dtype=np.float32)
            x[i] = 1
            o = riptide.downsample(x, f)
            if m is None:
                m = o.size
                W = ref.ds_weights(N, f, m)
            need(o.size == m, "N=%d f=%r: output size depends on the data", N, f)
            bad = np.abs(o - W[:, i]) > 2e-6
            need(not bad.any(), "N=%d f=%r: weight of input sample %d in output sample %s is %s, expected %s",
                 N, f, i, np.flatnonzero(bad)[:1].tolist(), o[bad][:1].tolist(), W[:, i][bad][:1].tolist())
            ctx.ev(1)
        ctx.outcome(W.tobytes())


def ev_big(case, ctx):
    import riptide
    N, f = case["N"], case["f"]
    i = np.arange(N, dtype=np.int64)
    x = (((i * 2654435761) % 2001) - 1000).astype(np.float32)
    out = riptide.downsample(x, f)
    m = out.size
    need(abs(m - N / f) <= 1 + 1e-6 and m >= N / f - 1 - 1e-6, "N=%d f=%r: size %d", N, f, m)
    need(m == math.floor(Fraction(N) / Fraction(f)) or abs(N / f - round(N / f)) < 1e-9, "N=%d f=%r: size %d", N, f, m)
    c = np.concatenate(([0.0], np.cumsum(x.astype(float))))
    def integral(t):
        t = np.minimum(t, N)
        k = np.minimum(np.floor(t).astype(np.int64), N - 1)
        return c[k] + (t - k) * x[k].astype(float)
    e = np.arange(m + 1) * f
    exp = integral(e[1:]) - integral(e[:-1])
    bad = np.abs(out - exp) > 4e-6 * 1000 * (f + 1) + 1e-4 * 1000 * (f * 1e-4)
    need(not bad.any(), "N=%d f=%r: sample %s is %s, expected %s", N, f, np.flatnonzero(bad)[:1].tolist(), out[bad][:1].tolist(), exp[bad][:1].tolist())
    ctx.ev(1)
    ctx.outcome(out[:50].tobytes())


SPECIAL = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "1+": 1.0, "N+": None}


def ev_refuse(case, ctx):
    import riptide
    N, f = case["N"], case["f"]
    if f == "N+":
        f = float(np.nextafter(float(N), 1e9))
    elif isinstance(f, str):
        f = SPECIAL[f]
    x = np.ones(N, dtype=np.float32)
    expect_raises(ValueError, lambda: riptide.downsample(x, f), f"downsample(ones({N}), {f!r})")
    ts = riptide.TimeSeries(x, 0.1)
    expect_raises(ValueError, lambda: ts.downsample(f), f"TimeSeries.downsample(ones({N}), {f!r})")
    expect_raises(ValueError, lambda: ts.downsample(f, inplace=True), f"TimeSeries.downsample(ones({N}), {f!r}, inplace)")
    need(ts.nsamp == N and ts.tsamp == 0.1, "refused in-place downsample changed the series")
    ctx.ev(3)


def ev_ts(case, ctx):
    import riptide
    N, f = case["N"], case["f"]
    x = ((np.arange(N) * 31) % 17 - 8).astype(np.float32)
    for inplace in (False, True):
        ts = riptide.TimeSeries(x.copy(), 0.25)
        r = ts.downsample(f, inplace=inplace)
        t2 = ts if inplace else r
        need((r is None) == inplace, "downsample(inplace=%s) returned %r", inplace, r)
        check_one(x, f, f"TimeSeries.downsample[{N}]({f}, inplace={inplace})", lambda a, b: t2.data)
        need(abs(t2.tsamp / (0.25 * f) - 1) < 1e-12, "tsamp after downsampling by %r: %r", f, t2.tsamp)
        if not inplace:
            need((ts.data == x).all() and ts.tsamp == 0.25, "source changed")
        ctx.ev(1)
    ctx.outcome(t2.data.tobytes())


def fracs(N, den):
    return sorted({Fraction(a, b) for b in range(1, den + 1) for a in range(b + 1, N * b + 1)})


def spaces(tier):
    Nmax, den = (16, 6) if tier == "quick" else (26, 8)
    Nimp = 14 if tier == "quick" else 22
    def chunks(N, d, size=60):
        fr = [(q.numerator, q.denominator) for q in fracs(N, d)]
        for i in range(0, len(fr), size):
            yield dict(N=N, fr=fr[i:i + size])
    big = []
    for N in (1000, 1023, 4096, 10007, 100000):
        for f in (1.0000001, 1.1, 1.5, 1.9999999, 2.0, 2.5, math.pi, 3.0, 7.0, 9.999, 10.0, 33.3, 100.0, N / 7.0, N / 2.0, N - 0.5, float(N)):
            big.append(dict(N=N, f=f))
    for N in (65537, 262147, 1 << 20, 3000001) + (((1 << 24) + 3, 50000017) if tier == "thorough" else ()):
        for f in (1.0000001, 1.01, 1.5, 2.0, 3.0000001, 17.77, 255.0, 256.0, 257.3, 1000.0, 65535.5, N / 3.0, float(N)):
            if f <= N:
                big.append(dict(N=N, f=f))
    bad = [dict(N=N, f=f) for N in (1, 2, 7) for f in (1.0, 0.999999999, 0.5, 0.0, -1.0, -2.5, "inf", "-inf", "N+", N + 1.0, 1e300)]
    return [
        Space("rational", [c for N in range(2, Nmax + 1) for c in chunks(N, den)], ev_rat,
              "all a/b (b bounded) in (1, N] and both float neighbours, 5 data patterns"),
        Space("impulses", [c for N in range(2, Nimp + 1) for c in chunks(N, den)], ev_impulse,
              "complete weight matrix from the impulse basis"),
        Space("large", big, ev_big, "large sizes against cumulative sums"),
        Space("timeseries", [dict(N=N, f=a / b) for N in (5, 8, 13, 40) for b in (1, 2, 3, 5, 7) for a in range(b + 1, N * b + 1, max(1, N * b // 12))], ev_ts,
              "TimeSeries.downsample in and out of place"),
        Space("refused", bad, ev_refuse, "factors outside (1, N]"),
    ]
