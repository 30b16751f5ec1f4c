"""C01: FFA drift paths."""
import numpy as np
from .. import ref
from ..engine import Space, Violation, need, expect_raises

PROP = "C01"
LEVEL = "exploration"
RULE = ("one case per (rows m) or (m, p) or (N, p); every output row s of every case is compared; an evaluation is one "
        "compared output row (or one refused call), non-trivial when m > 1")
ASSUMPTIONS = ["input values are small integers so that float32 sums are exact; linearity in the values beyond that is "
               "observed on mixed-magnitude data with a float32 rounding tolerance",
               "when the nearest-integer share is an exact tie either neighbour is accepted"]
_book = None


def book():
    global _book
    if _book is None:
        import riptide
        _book = ref.PathBook(riptide.ffa2)
    return _book


def ev_paths(case, ctx):
    m = case["m"]
    b = book()
    t = b.get(m)
    if m == 1:
        need((t == 0).all(), "m=1: the transform must return its input")
    d = np.diff(t, axis=1)
    need((t[:, 0] == 0).all(), "m=%d: a path does not start at 0", m)
    need((t[:, -1] == np.arange(m)).all(), "m=%d: path of row s does not end at s", m)
    need(not d.size or (d.min() >= 0 and d.max() <= 1), "m=%d: a path step is not 0 or 1", m)
    err = ref.check_path_structure(m, t, b.get)
    need(err is None, "%s", err)
    ctx.ev(m, m if m > 1 else 0)
    ctx.outcome((m, t.tobytes()))


def patterns(m, p):
    i = np.arange(m)[:, None]
    j = np.arange(p)[None, :]
    yield "ramp", ((i * 7 + j * 13 + i * j) % 101 - 50).astype(np.float32)
    yield "corner", ((i == m - 1) & (j == 0)).astype(np.float32) * 3 + ((i == 0) & (j == p - 1)).astype(np.float32) * 5
    yield "const", np.full((m, p), 2, dtype=np.float32)
    yield "code", ((i * p + j) % 4093).astype(np.float32)


def ev_shape(case, ctx):
    import riptide
    m, p = case["m"], case["p"]
    t = book().validated(m)
    cols = np.arange(p)
    idx = (cols[None, None, :] + t[:, :, None]) % p          # s, i, j
    rows = np.arange(m)[None, :, None]
    for name, x in patterns(m, p):
        keep = x.copy()
        out = riptide.ffa2(x)
        need(out.shape == (m, p) and out.dtype == np.float32, "ffa2(%dx%d): shape %s dtype %s", m, p, out.shape, out.dtype)
        exp = x.astype(np.int64)[rows, idx].sum(axis=1)
        bad = np.argwhere(out != exp)
        need(len(bad) == 0, "ffa2 of %dx%d %s data: output row %s differs from the sum along its drift path", m, p, name, bad[:1])
        need((x == keep).all(), "ffa2 modified its input")
        ctx.ev(m, m if m > 1 else 0)
        ctx.outcome(out.tobytes())


def ev_ffa1(case, ctx):
    import riptide
    N, p = case["N"], case["p"]
    x = ((np.arange(N) * 37 + 11) % 251 - 100).astype(np.float32)
    m = N // p
    out = riptide.ffa1(x, p)
    need(isinstance(out, np.ndarray) and out.dtype == np.float32 and out.shape == (m, p),
         "ffa1(N=%d, p=%d): got shape %s dtype %s, expected (%d, %d) float32", N, p, out.shape, out.dtype, m, p)
    t = book().validated(m)
    cols = np.arange(p)
    y = x[:m * p].reshape(m, p).astype(np.int64)
    exp = y[np.arange(m)[None, :, None], (cols[None, None, :] + t[:, :, None]) % p].sum(axis=1)
    need((out == exp).all(), "ffa1(N=%d, p=%d) differs from the transform of its first %d samples", N, p, m * p)
    ctx.ev(m, m if m > 1 else 0)
    ctx.outcome(out.tobytes())


def ev_linear(case, ctx):
    """mixed magnitudes: float data equal the path sums within float32 rounding."""
    import riptide
    m, p = case["m"], case["p"]
    rng = np.random.RandomState(m * 1000 + p)
    x = (rng.normal(size=(m, p)) * 10.0 ** rng.randint(-3, 4, size=(m, p))).astype(np.float32)
    t = book().validated(m)
    idx = (np.arange(p)[None, None, :] + t[:, :, None]) % p
    g = x.astype(float)[np.arange(m)[None, :, None], idx]
    exp, mag = g.sum(axis=1), np.abs(g).sum(axis=1)
    out = riptide.ffa2(x)
    bad = np.argwhere(np.abs(out - exp) > 1e-6 * (np.log2(m) + 2) * mag + 1e-30)
    need(len(bad) == 0, "ffa2 of %dx%d float data: row, col %s differ beyond rounding", m, p, bad[:1])
    ctx.ev(m, m if m > 1 else 0)
    ctx.outcome(out.tobytes())


def ev_halves(case, ctx):
    """Row s of m rows is row h of the first half plus row t of the second half rotated by s - t, with nearest-integer shares h and t."""
    import riptide
    m, p = case["m"], case["p"]
    x = np.random.RandomState(m % 100003 + p).randint(-60, 60, size=(m, p)).astype(np.float32)
    mh = m >> 1
    out, F, G = riptide.ffa2(x), riptide.ffa2(x[:mh]), riptide.ffa2(x[mh:])
    s, cols = np.arange(m), np.arange(p)

    def share(k):
        num = (k - 1) * s.astype(np.int64) * 2 + (m - 1)
        return num // (2 * (m - 1)), num % (2 * (m - 1)) == 0
    (h, th), (t, tt) = share(mh), share(m - mh)
    good = np.zeros(m, dtype=bool)
    for a in (0, 1):
        for b in (0, 1):
            hh, t2 = np.where(th, h - a, h), np.where(tt, t - b, t)
            ends = (hh <= s - t2) & (s - t2 <= hh + 1)  # the path does not decrease, nor grow by more than one bin, between the halves
            good |= ends & (out == F[hh] + np.take_along_axis(G[t2], (cols[None, :] + (s - t2)[:, None]) % p, axis=1)).all(axis=1)
    bad = np.flatnonzero(~good)
    need(len(bad) == 0, "ffa2 of %d x %d data: %d rows (%s, ...) are not the sum of the two halves with their nearest-integer shares of the drift", m, p, len(bad), bad[:3].tolist())
    ctx.ev(m)
    ctx.outcome((m, p, float(out[-1, 0])))


def ev_refuse(case, ctx):
    import riptide
    x = np.arange(case["N"], dtype=np.float32)
    if case.get("ndim") == 2:
        x = x.reshape(2, -1)
    p = {"float": 3.0, "str": "3", "none": None, "npfloat": np.float64(3)}.get(case["p"], case["p"])
    def call():
        return riptide.ffa1(x, p)
    # either refused (any ordinary exception for a wrong type) 
    expect_raises((ValueError, TypeError), call, f"ffa1(N={case['N']}, ndim={x.ndim}, p={p!r})")
    ctx.ev(1)


def spaces(tier):
    M = 200 if tier == "quick" else 800
    S = 26 if tier == "quick" else 48
    big = [dict(m=m, p=p) for m in (33, 64, 97, 128, 131, 255) for p in (2, 3, 7, 50, 100, 251)]
    if tier == "thorough":
        big += [dict(m=m, p=p) for m in (500, 511, 512, 513, 777) for p in (1, 2, 10, 240, 263)]
    halves = [dict(m=m, p=17) for m in range(2, 1300 if tier == "quick" else 6000)]
    halves += [dict(m=m, p=p) for m in (2000, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 5000, 6007, 8191, 8193, 10007, 16385, 30001, 65536, 65537) for p in (2, 11)]
    halves += [dict(m=m, p=5) for m in (100003, 131073, 300001, 1000001)] + ([dict(m=m, p=3) for m in (2000003, 4000001, 8388609)] + [dict(m=m, p=2) for m in (16777216, 16777217, 20000001)] if tier == "thorough" else [])
    return [
        Space("halves", halves, ev_halves, "large transforms against the transforms of their halves", nproc=None if tier == "quick" else 4),
        Space("paths", [dict(m=m) for m in range(1, M + 1)], ev_paths,
              "drift paths of all m extracted by position-coded impulses; structure checked against the halves", batch=2),
        Space("shapes", [dict(m=m, p=p) for m in range(1, S + 1) for p in range(1, S + 10)] + big, ev_shape,
              "all m x p, four integer patterns, exact equality with the path sums"),
        Space("series", [dict(N=N, p=p) for N in range(1, 70 if tier == "quick" else 140) for p in range(1, N + 1)], ev_ffa1,
              "1-D front end, every N and p"),
        Space("values", [dict(m=m, p=p) for m in (1, 2, 3, 4, 5, 7, 8, 16, 31, 60) for p in (1, 2, 5, 16, 60)], ev_linear,
              "mixed-magnitude float data"),
        Space("refused", [dict(N=N, p=p) for N in (1, 6, 10) for p in (0, -1, -5, N + 1, 10 * N, "float", "str", "none", "npfloat")]
              + [dict(N=6, p=2, ndim=2)], ev_refuse, "invalid base periods"),
    ]
