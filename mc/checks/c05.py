"""C05: running medians and dereddening."""
import itertools, math
import numpy as np
from .. import ref
from ..engine import Space, need, expect_raises

PROP = "C05"
LEVEL = "exploration"
RULE = ("arrays: all words over a small alphabet and all permutations up to a length, plus structured longer arrays; every odd "
        "window; an evaluation is one compared output array, non-trivial if the window is > 1")
ASSUMPTIONS = ["the fast variant and dereddening agree within float32 rounding of the block averages",
               "window widths of dereddening are not within 1e-6 of a half-integer number of samples"]
PAIRS = {}


def windows(n):
    return range(1, n, 2)


def check_exact(x, w, ctx):
    import riptide
    keep = x.copy()
    got = riptide.running_median(x, w)
    exp = ref.running_median(x.astype(np.float32), w)
    need(got.shape == exp.shape, "running_median: shape %s", got.shape)
    bad = np.flatnonzero(got != exp)
    if len(bad):
        need(False, "running_median of %s (n=%d), window %d: index %d is %r, median of its window is %r", x[:40].tolist(), x.size, w, bad[0], float(got[bad[0]]), float(exp[bad[0]]))
    need(np.array_equal(x, keep), "running_median modified its input")
    ctx.ev(1, int(w > 1))


def ev_words(case, ctx):
    n, alpha, first = case["n"], case["alpha"], case["first"]
    for wd in itertools.product(alpha, repeat=n - len(first)):
        x = np.array(list(first) + list(wd), dtype=np.float32)
        for w in windows(n):
            check_exact(x, w, ctx)
    ctx.outcome((n, tuple(first)))


def ev_perms(case, ctx):
    n, first = case["n"], case["first"]
    rest = [k for k in range(n) if k not in first]
    for pm in itertools.permutations(rest):
        x = np.array(list(first) + list(pm), dtype=np.float32)
        for w in windows(n):
            check_exact(x, w, ctx)
    ctx.outcome((n, tuple(first)))


def pattern(kind, n):
    i = np.arange(n)
    rng = np.random.RandomState(n)
    return {
        "up": i * 1.0, "down": -2.5 * i, "const": np.full(n, 3.25), "alt": np.where(i % 2, -1e3, 1e3),
        "saw": (i * 7) % 11 - 5.0, "spike": np.where(i == n // 2, 1e30, (i * 3) % 5), "edge": np.where((i == 0) | (i == n - 1), 1e6, i % 3),
        "step": np.where(i < n // 2, -7.0, 8.0), "rand": rng.normal(size=n), "dups": rng.randint(0, 3, size=n).astype(float),
        "big": rng.normal(size=n) * 1e30, "tiny": rng.normal(size=n) * 1e-30, "quad": (i - n / 3.0) ** 2,
    }[kind].astype(np.float32)


KINDS = ("up", "down", "const", "alt", "saw", "spike", "edge", "step", "rand", "dups", "big", "tiny", "quad")


def ev_patterns(case, ctx):
    x = pattern(case["kind"], case["n"])
    for w in windows(case["n"]):
        check_exact(x, w, ctx)
    ctx.outcome(x.tobytes())


def ev_large(case, ctx):
    import riptide
    n, w = case["n"], case["w"]
    x = pattern(case["kind"], n)
    got = riptide.running_median(x, w)
    p = np.pad(x, w // 2, mode="edge")
    # every index near the ends and near block boundaries, a regular grid elsewhere
    idx = sorted(set(range(min(n, 300))) | set(range(max(0, n - 300), n)) | {min(n - 1, max(0, k + d)) for k in (w // 2, w, 1024, 4096, 65536, n // 2) for d in range(-3, 4)} | set(range(0, n, max(1, n // 2000))))
    for i in idx:
        m = np.partition(p[i:i + w], w // 2)[w // 2]
        need(got[i] == m, "running_median of %s data of %d samples, window %d: index %d is %r, median of its window is %r", case["kind"], n, w, i, float(got[i]), float(m))
    ctx.ev(len(idx))
    ctx.outcome((n, w, float(got.sum())))


def ev_refuse(case, ctx):
    import riptide
    x = np.arange(case["n"], dtype=np.float32)
    expect_raises((ValueError, TypeError) if case["w"] < 0 else ValueError, lambda: riptide.running_median(x, case["w"]), f"running_median n={case['n']} window {case['w']}")
    ctx.ev(1)


def close(got, exp, x, what):
    scale = float(np.abs(x).max()) if x.size else 0.0
    need(got.shape == exp.shape, "%s: shape %s, expected %s", what, got.shape, exp.shape)
    bad = np.flatnonzero(~(np.abs(got.astype(float) - exp) <= 2e-6 * scale + 1e-30))
    if len(bad):
        need(False, "%s: index %d is %r, expected %r", what, bad[0], float(got[bad[0]]), float(exp[bad[0]]))


def ev_fast(case, ctx):
    import riptide
    n, mp, kind = case["n"], case["mp"], case["kind"]
    x = pattern(kind, n)
    if case.get("f8"):
        x = x.astype(np.float64)
    for w in case["ws"]:
        what = f"fast_running_median({kind} n={n}, window={w}, min_points={mp})"
        exp = ref.fast_running_median(x, w, mp)
        keep = x.copy()
        if exp is None:
            # NOTE: an IndexError is acceptable if nothing is left after block averaging
            expect_raises((ValueError, IndexError), lambda: riptide.fast_running_median(x, w, mp), what)
            ctx.ev(1, 0)
            continue
        got = riptide.fast_running_median(x, w, mp)
        close(got, exp, x, what)
        if mp == 101:
            need(np.array_equal(got, riptide.fast_running_median(x, w)), "%s: min_points does not default to 101", what)
        need(np.array_equal(x, keep), "%s modified its input", what)
        ctx.ev(1, int(w > 1))
    ctx.outcome(x.tobytes())


def ev_fast_refuse(case, ctx):
    import riptide
    x = np.arange(case["n"], dtype=np.float32)
    expect_raises(ValueError, lambda: riptide.fast_running_median(x, case["w"], case["mp"]), f"fast_running_median n={case['n']} w={case['w']} min_points={case['mp']}")
    ctx.ev(1)


def ev_deredden(case, ctx):
    import riptide
    n, tsamp, mp = case["n"], case["tsamp"], case["mp"]
    x = pattern(case["kind"], n)
    for ws in case["ws"]:
        for eps in (0.0, 0.3, -0.3, 0.49, -0.49):
            width = (ws + eps) * tsamp
            w = ws
            exp = ref.fast_running_median(x, w, mp)
            what = f"deredden({case['kind']} n={n} tsamp={tsamp}, width={width}, minpts={mp})"
            ts = riptide.TimeSeries.from_numpy_array(x, tsamp)
            if exp is None:
                expect_raises((ValueError, IndexError), lambda: ts.deredden(width, minpts=mp), what)
                ctx.ev(1, 0)
                continue
            keep = x.copy()
            out = ts.deredden(width, minpts=mp)
            need(np.array_equal(ts.data, keep), "%s modified the series", what)
            need(out.data.dtype == np.float32, "%s: dtype %s", what, out.data.dtype)
            close(out.data, x.astype(float) - exp, x, what)
            ts2 = riptide.TimeSeries.from_numpy_array(x, tsamp, copy=True)
            need(ts2.deredden(width, minpts=mp, inplace=True) is None, "%s in place returned something", what)
            close(ts2.data, x.astype(float) - exp, x, what + " in place")
            ctx.ev(2, 2 * int(w > 1))
    ctx.outcome((n, mp, x.tobytes()))


def spaces(tier):
    th = tier == "thorough"
    words = []
    for n in range(2, 10 if not th else 12):
        alpha = [0, 1, -2] if n <= (8 if not th else 10) else [0, 1]
        for first in ([()] if n < 6 else itertools.product(alpha, repeat=2)):
            words.append(dict(n=n, alpha=alpha, first=list(first)))
    perms = [dict(n=n, first=list(f)) for n in range(2, 9 if not th else 10)
             for f in (([],) if n < 5 else itertools.permutations(range(n), 2))]
    fast = []
    for n in (2, 3, 4, 5, 7, 10, 15, 22, 31, 50, 77) + ((120, 200, 333) if th else ()):
        for mp in (1, 3, 5, 7, 11, 21, 101):
            top = 2 * n + 3
            for kind in ("rand", "up", "saw", "spike", "step") if not th else KINDS:
                fast.append(dict(n=n, mp=mp, kind=kind, ws=list(range(1, top, 1 if n < 40 else 3))))
    for w0 in (150, 201, 202, 203, 302, 303, 304, 505, 1010):
        for kind in ("rand", "step", "quad"):
            fast.append(dict(n=4000, mp=101, kind=kind, ws=[w0]))
            fast.append(dict(n=4001, mp=101, kind=kind, ws=[w0], f8=True))
    for w0, mp in ((1000, 501), (3000, 501), (5000, 1001), (30000, 101), (49999, 5)):
        for kind in ("rand", "step"):
            fast.append(dict(n=70001, mp=mp, kind=kind, ws=[w0]))
    der = [dict(n=n, mp=mp, kind=k, tsamp=t, ws=list(range(1, min(n + 4, 40), 1 if n < 30 else 3)))
           for n in (4, 9, 20, 57) for mp in (1, 3, 7, 101) for k in ("rand", "step", "quad", "dups") for t in (1.0, 0.25, 1e-3, 0.0137)]
    return [Space("words", words, ev_words, "all words over small alphabets, every odd window"),
            Space("permutations", perms, ev_perms, "all orderings of distinct values, every odd window"),
            Space("patterns", [dict(kind=k, n=n) for k in KINDS for n in list(range(2, 40)) + [64, 101, 150]], ev_patterns, "structured arrays"),
            Space("large", [dict(kind=k, n=n, w=w) for k in ("rand", "saw", "step", "up", "const", "dups", "alt") for n, w in ((1500, 257), (1500, 513), (3000, 1025), (3000, 2999), (20000, 33), (70001, 101)) +
                                (((10000, 5001), (300001, 101), (20000, 999)) if th else ())], ev_large, "long arrays and windows"),
            Space("refused", [dict(n=n, w=w) for n in (1, 2, 3, 8, 9) for w in list(range(0, n + 6, 2)) + [n, n + 1, n + 2, n + 3, 10 ** 6 + 1, -1]
                              if not (w % 2 == 1 and 0 < w < n)], ev_refuse, "even and too large windows"),
            Space("fast", fast, ev_fast, "fast running median against its definition, all windows"),
            Space("fast-refused", [dict(n=n, w=w, mp=mp) for n in (10, 50) for w in (1, 5, 9) for mp in (0, 2, 4, 100)], ev_fast_refuse, "even min_points"),
            Space("deredden", der, ev_deredden, "window rounding, block averaging, subtraction, both forms")]
