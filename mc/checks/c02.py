"""C02: trial frequencies / periods of an FFA transform."""
import numpy as np
from fractions import Fraction
from ..engine import Space, need, expect_raises

PROP = "C02"
LEVEL = "exploration"
RULE = "one case per N; all p in 2..N and all dt of a list; an evaluation is one (N, p, dt) grid compared entry by entry; non-trivial when it has more than one entry"
ASSUMPTIONS = ["relative tolerance 1e-12 on frequencies (float64 rounding)"]
DTS = [None, 1.0, 2.0, 64e-6, 1e-9, 1e3, 1, 0.1]


def ev_grid(case, ctx):
    import riptide
    N = case["N"]
    for p in case["ps"]:
        m = N // p
        for dt in DTS:
            kw = {} if dt is None else {"dt": dt}
            d = 1.0 if dt is None else dt
            f = riptide.ffafreq(N, p, **kw)
            P = riptide.ffaprd(N, p, **kw)
            need(f.shape == (m,) and P.shape == (m,), "N=%d p=%d dt=%s: %s frequencies, %s periods for %d rows", N, p, dt, f.shape, P.shape, m)
            f0 = 1.0 / p
            s = np.arange(m) / (m - 1.0) if m > 1 else np.zeros(1)
            exp = (f0 - s * f0 * f0) / d
            need(np.allclose(f, exp, rtol=1e-12, atol=0), "N=%d p=%d dt=%s: frequencies %s, expected %s", N, p, dt, f[:4], exp[:4])
            need(np.allclose(P * exp, 1.0, rtol=1e-12, atol=0), "N=%d p=%d dt=%s: periods are not 1/frequency", N, p, dt)
            if m > 1:
                need((np.diff(f) < 0).all(), "N=%d p=%d: frequencies not decreasing", N, p)
            ctx.ev(1, 1 if m > 1 else 0)
    ctx.outcome((N, case["ps"][-1], float(f.sum())))


def ev_rows(case, ctx):
    import riptide
    N, p = case["N"], case["p"]
    x = np.zeros(N, dtype=np.float32)
    need(riptide.ffa1(x, p).shape[0] == len(riptide.ffafreq(N, p)) == len(riptide.ffaprd(N, p)), "N=%d p=%d: rows and frequencies differ", N, p)
    ctx.ev(1, 1 if N // p > 1 else 0)
    ctx.outcome(N // p)


VAL = {"3.0": 3.0, "'3'": "3", "None": None, "nan": float("nan"), "[3]": [3], "f8": np.float64(3), "2.5": 2.5, "-inf": float("-inf")}


def ev_refuse(case, ctx):
    import riptide
    N, p, dt = (VAL.get(v, v) if isinstance(v, str) else v for v in (case["N"], case["p"], case["dt"]))
    for fn in (riptide.ffafreq, riptide.ffaprd):
        ex = (ValueError,) if isinstance(dt, (int, float)) else (ValueError, TypeError)
        expect_raises(ex, lambda: fn(N, p, dt=dt), f"{fn.__name__}({N!r}, {p!r}, dt={dt!r})")
        ctx.ev(1)


def spaces(tier):
    M = 150 if tier == "quick" else 420
    bad = []
    for N in ("3.0", "'3'", "None", 0, -1, -10, "nan", "f8", "2.5", "[3]"):
        bad.append(dict(N=N, p=2, dt=1.0))
    for p in ("3.0", "'3'", "None", 1, 0, -1, -3, "nan", "f8", "2.5", "[3]", 11, 12, 1000):
        bad.append(dict(N=10, p=p, dt=1.0))
    for dt in (0, 0.0, -0.0, -1, -1e-9, "-inf", "None", "'3'"):
        bad.append(dict(N=10, p=3, dt=dt))
    bad.append(dict(N=1, p=2, dt=1.0))
    bad.append(dict(N=1, p=1, dt=1.0))
    return [
        Space("grid", [dict(N=N, ps=list(range(2, N + 1))) for N in range(2, M + 1)]
              + [dict(N=N, ps=[p]) for N in (10 ** 4, 10 ** 5, 2 ** 20 + 1) for p in (2, 3, 240, 263, N - 1, N, N // 2, N // 2 + 1, N // 3)],
              ev_grid, "every N, p and dt"),
        Space("rows", [dict(N=N, p=p) for N in range(2, 60) for p in range(2, N + 1)], ev_rows, "one frequency per transform row"),
        Space("refused", bad, ev_refuse, "invalid arguments"),
    ]
