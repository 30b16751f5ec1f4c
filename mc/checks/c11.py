"""C11: folding."""
import itertools, math
from fractions import Fraction
import numpy as np
from .. import ref
from ..engine import Space, Violation, need

PROP = "C11"
LEVEL = "exploration"
RULE = ("all combinations of series length, period (integer, fractional, dividing and nearly dividing the data length), number of bins and requested sub-integrations; the output is compared with "
        "area-weighted sums computed in float64 for every full period, and refusals with the documented conditions")
ASSUMPTIONS = ["where the data length is a whole number of periods to within 1e-9, the last period may or may not be counted", "float32 results within 2e-5 of the L1 norm of the terms",
               "bin width within 1e-12 of the sampling time without being exactly equal may be accepted or refused"]


def series(n, kind):
    i = np.arange(n)
    if kind == "a":
        x = ((i * 7919) % 104729) / 1000.0 % 17 - 5
    elif kind == "one":
        x = np.ones(n)
    else:
        x = np.zeros(n); x[n // 2] = 1; x[0] = 3; x[-1] = 2
    return x.astype(np.float32)


def integrate(x, f, m):
    """Integrals of the step function x over [k f, (k + 1) f), k < m; columns of x if it is 2-D."""
    S = np.concatenate((np.zeros((1,) + x.shape[1:]), np.cumsum(x, axis=0, dtype=np.longdouble).astype(float)))
    t = np.minimum(np.arange(m + 1) * f, x.shape[0])
    i = np.minimum(np.floor(t).astype(int), x.shape[0] - 1)
    fr = (t - i).reshape((-1,) + (1,) * (x.ndim - 1))
    I = S[i] + fr * x[i]
    return I[1:] - I[:-1]


def expected(x, period, bins, m):
    """(m, bins) float64 for period in samples."""
    f = period / bins
    d = integrate(x.astype(float), f, m * bins)
    mag = integrate(np.abs(x.astype(float)), f, m * bins)
    sc = (m * f) ** -0.5
    return d.reshape(m, bins) * sc, mag.reshape(m, bins) * sc


def vsum(X, s):
    m = X.shape[0]
    return integrate(X, m / s, s)


def ms(length, period):
    q = length / period
    k = math.floor(q)
    out = {k}
    if q - k < 1e-9 * max(q, 1): out.add(k - 1)
    if k + 1 - q < 1e-9 * max(q, 1): out.add(k + 1)
    return {v for v in out if v >= 1}


def check_out(out, x, P, bins, sub, mm, msg):
    if sub is not None and sub > mm:
        return "subints"
    exp, mag = expected(x, P, bins, mm)
    if sub == 1 or mm == 1:
        exp, mag = exp.sum(axis=0), mag.sum(axis=0)
    elif sub is not None and sub != mm:
        exp, mag = vsum(exp, sub), vsum(mag, sub)
    if out.shape != exp.shape:
        return f"shape {out.shape}, expected {exp.shape}"
    tol = 2e-5 * mag + 1e-6 * (mag.max(initial=0.0) + 1e-30)
    bad = np.abs(out.astype(float) - exp) > tol
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape)
        return f"value at {tuple(map(int, i))} is {out[i]}, expected {exp[i]}"
    return None


def ev(case, ctx):
    import riptide
    n, ts = case["n"], case["tsamp"]
    x = series(n, case["kind"])
    t = riptide.TimeSeries(x, ts, metadata={"dm": 3.0, "note": "n"}, copy=True)
    meta = dict(t.metadata)
    for Ps in case["periods"]:
        period = Ps * ts
        for bins in case["bins"]:
            tb = period / bins
            exact = period / ts / bins
            m_all = ms(n * ts, period)
            long = period > t.length
            refused = long or not tb > ts
            unsure = (abs(tb / ts - 1) < 1e-12 and tb != ts) or (long and period <= t.length * (1 + 1e-12))
            mtop = max(m_all) if m_all else 0
            subs = [None] + (case["subints"] if case["subints"] != "all" else [-1, 0] + list(range(1, mtop + 3)))
            total = None
            for sub in subs:
                msg = f"n={n} tsamp={ts} period={period!r} ({Ps!r} samples) bins={bins} subints={sub}"
                bad = refused or (sub is not None and sub < 1) or (sub is not None and m_all and sub > max(m_all))
                try:
                    out = t.fold(period, bins, subints=sub)
                except ValueError:
                    if bad or unsure or (sub is not None and sub > min(m_all)):
                        ctx.ev(1, nontrivial=True)
                        continue
                    raise Violation(msg + ": refused")
                need(not bad or unsure, "%s: should have been refused, returned shape %s", msg, getattr(out, "shape", None))
                if unsure:
                    continue
                need(isinstance(out, np.ndarray) and out.dtype == np.float32, "%s: returned %s", msg, getattr(out, "dtype", type(out)))
                errs = [check_out(out, x, Ps, bins, sub, mm, msg) for mm in sorted(m_all, key=lambda v: -v)]
                need(None in errs, "%s: %s", msg, errs[0])
                tot = out.astype(float) if out.ndim == 1 else out.astype(float).sum(axis=0)
                if len(m_all) == 1:
                    if total is not None:
                        tol = 5e-5 * (np.abs(total).max() + np.abs(out).max() * max(1, len(out)))
                        need(np.abs(tot - total).max() <= tol, "%s: the profile depends on the number of sub-integrations", msg)
                    total = tot
                # exactly k sub-integrations
                if sub is not None and sub > 1:
                    need(out.shape[0] == sub if out.ndim == 2 else False, "%s: shape %s", msg, out.shape)
                ctx.ev(1)
                ctx.outcome((out.shape, round(float(np.abs(out).sum()), 3)))
            need(t.data.tobytes() == x.tobytes() and t.tsamp == ts and dict(t.metadata) == meta, "n=%s period=%s bins=%s: the source series changed", n, period, bins)


def periods_small(n):
    P = set()
    for k in range(2, n + 2):
        P.add(float(k))
        P.add(k + 0.5)
        P.add(k + 1 / 3)
        P.add(k + 0.95)
    for k in range(1, 8):
        P.add(n / k)
        P.add(n / k * (1 + 2e-16))
        P.add(n / k * (1 - 2e-16))
        P.add(n / k * (1 + 1e-6))
        P.add(n / k * (1 - 1e-6))
    P |= {math.pi * k for k in range(1, n // 3)}
    return sorted(p for p in P if p >= 1.2)


def spaces(tier):
    deep = tier == "thorough"
    small = []
    for n in list(range(2, 27)) + ([27, 28, 29, 30, 31, 32, 33, 36, 40, 48, 60, 64] if deep else [30, 36, 48]):
        for kind in ("a", "one", "spike") if deep or n < 14 else ("a",):
            for ts in (1.0, 0.3) if n % 3 else (1.0, 6.4e-05):
                P = periods_small(n)
                for i in range(0, len(P), 12):
                    small.append(dict(n=n, kind=kind, tsamp=ts, periods=P[i:i + 12], bins=list(range(1, min(n, 12) + 1)), subints="all"))
    big = []
    for n in (997, 1000, 1024, 4096) + ((10007, 30030) if deep else ()):
        for ts in (1.0, 0.01, 64e-6):
            P = [n / k for k in (1, 2, 3, 5, 7, 11, 13, 49)] + [n / k * (1 - 3e-16) for k in (3, 7, 10, 49)] + [10.0, 17.3, math.e * 9, 33.3333, 100.0, 101.01, n - 0.5, n + 0.5, n / 2 + 1e-7]
            for p in P:
                big.append(dict(n=n, kind="a", tsamp=ts, periods=[p], bins=[b for b in (2, 5, 8, 16, 31) if b < p] or [2], subints=[1, 2, 3, 4, 7, 8, 10, 16, 29, 31, 49, 50, 64, 97, 10 ** 6]))
    for n, P, b, subs in ((100003, 31.7, 16, [1, 7, 100, 1000, 3154]), (300000, 11.0, 8, [1, 1000, 27272]), (1000003, 1000.3, 256, [1, 128, 999]), (70001, 70000.5, 33, [1]), (500000, 7.25, 5, [1, 3, 65536, 68000])):
        big.append(dict(n=n, kind="a", tsamp=64e-6, periods=[P], bins=[b], subints=subs))
    # every (rows, subints) pair: the vertical downsampling factor
    pairs = []
    top = 130 if deep else 70
    for m in range(1, top):
        pairs.append(dict(n=4 * m + m % 4, kind="a", tsamp=1.0, periods=[4.0], bins=[2, 3], subints=list(range(1, m + 2))))
    # exact multiples whose quotient is rounded either way
    edge = []
    for k in range(1, 200 if deep else 80):
        for ts in (0.1, 64e-6, 1 / 3, 256e-6):
            edge.append(dict(n=12 * k, kind="one", tsamp=ts, periods=[12.0, 12 * k / max(1, k - 1) if k > 1 else 12.0], bins=[3, 5, 7, 8], subints=sorted({1, k, max(1, k - 1), max(1, k // 2), max(1, k // 3)})))
    return [Space("small", small, ev, "all small series, periods, bins and sub-integrations"), Space("pairs", pairs, ev, "all numbers of periods and sub-integrations"),
            Space("edge", edge, ev, "data length an exact multiple of the period"), Space("large", big, ev, "longer series")]
