"""C08: memory safety, layouts and dtypes, low-level kernels.

The extension is built with AddressSanitizer and UndefinedBehaviorSanitizer; every call of the spaces
below runs under them (a report aborts the worker, which the engine turns into a violation), with fresh
heap memory filled with a non-zero byte so that uninitialised outputs differ from the reference."""
import itertools, math
import numpy as np
from .. import ref
from ..engine import Space, need

PROP = "C08"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of sizes x layouts x dtypes x parameters on the real kernels, built with ASan+UBSan, against independent definitions"
SANITIZE = "-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
RULE = ("every entry point x all sizes up to a bound (0 and 1 included) x parameters x memory layouts x data types; an evaluation is one call, either refused with an "
        "ordinary exception or compared with the reference on the contiguous float32 copy; non-trivial if it returned a value")
ASSUMPTIONS = ["AddressSanitizer reports accesses outside heap and stack objects", "values are finite and exactly representable in the data types used",
               "memory exhaustion (MemoryError) is an ordinary exception"]

LAYOUTS = ("C", "strided", "reversed", "offset", "readonly", "F", "T", "rev0", "bcast")
DTYPES = ("f4", "f8", "i4", "u1", "i8", ">f4", "f2", "?", "c8", "O", "U3")


def values(n, seed=0):
    return ((np.arange(n) * 7 + 3 + seed * 5) % 19).astype(float)


def layout(x, kind):
    """x: C-contiguous; same values in another layout (None if not expressible)."""
    if kind == "C":
        return x
    if kind == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y
    if kind == "offset":
        buf = np.zeros(x.size + 3, dtype=x.dtype)
        y = buf[3:].reshape(x.shape)
        y[...] = x
        return y
    if kind == "strided":
        buf = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        buf[..., ::2] = x
        return buf[..., ::2]
    if kind == "reversed":
        return x[..., ::-1].copy()[..., ::-1]
    if kind == "rev0":
        return None if x.ndim < 2 else x[::-1].copy()[::-1]
    if kind == "F":
        return None if x.ndim < 2 else np.asfortranarray(x)
    if kind == "T":
        return None if x.ndim < 2 else np.ascontiguousarray(x.T).T
    if kind == "bcast":
        return None if x.ndim < 2 or x.shape[0] == 0 else np.broadcast_to(x[:1], x.shape)
    raise AssertionError(kind)


def make(shape, dtype, kind, seed=0):
    """(array to pass, float32 contiguous copy of the same values)."""
    v = values(int(np.prod(shape)), seed).reshape(shape)
    if dtype == "?":
        v = (v % 2)
    x = layout(v.astype(dtype), kind)
    if x is None:
        return None, None
    if dtype == "c8":
        f = np.ascontiguousarray(x.real.astype(np.float32))
    else:
        f = np.array(x, dtype=np.float32, order="C", copy=True)
    return x, f


def junk():
    """Leave junk in numpy's small block caches."""
    a = [np.full(k, -7.625e33, dtype=np.float32) for k in range(1, 40)]
    del a


def call(what, fn, args, exp, ctx, tol=0.0, shape=None, must=False):
    """fn(*args): ordinary exception, or result equal to exp (array or tuple of arrays)."""
    keeps = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    junk()
    try:
        got = fn(*args)
    except Exception as e:
        for a, k in zip(args, keeps):
            if isinstance(a, np.ndarray):
                need(a.tobytes() == k.tobytes() or a.dtype == object, "%s: input modified", what)
        ctx.ev(1, 0)
        if must:
            need(False, "%s: %s: %s", what, type(e).__name__, e)
        return None
    need(exp is not None, "%s: expected an exception, got %s", what, got)
    got = np.asarray(got)
    need(got.shape == exp.shape, "%s: shape %s, expected %s", what, got.shape, exp.shape)
    bad = np.argwhere(~(np.abs(got.astype(float) - exp) <= tol))
    need(len(bad) == 0, "%s: index %s is %s, expected %s", what, bad[:1], got[tuple(bad[0])] if len(bad) else 0, exp[tuple(bad[0])] if len(bad) else 0)
    for a, k in zip(args, keeps):
        if isinstance(a, np.ndarray):
            need(np.array_equal(a, k), "%s: input modified", what)
            need(got.dtype == object or not np.shares_memory(got, a), "%s: output shares memory with an input", what)
    ctx.ev(1)
    ctx.outcome(got.tobytes())
    return got


def low(name):
    from riptide import libcpp
    return getattr(libcpp, name, None)


def ev_kernels(case, ctx):
    n, dtype, kind = case["n"], case["dtype"], case["layout"]
    x, f = make((n,), dtype, kind)
    y, g = make((n,), dtype, kind, seed=1)
    if x is None:
        return ctx.ev(1, 0)
    what = f"n={n} {dtype} {kind}"
    good = dtype == "f4" and kind in ("C", "readonly", "offset") and n > 0
    f, g = f.astype(float), g.astype(float)
    for shift in list(range(0, 2 * n + 3)) + [10 ** 6 + 1, 2 ** 40]:
        if low("rollback"):
            call(f"rollback({what}, {shift})", low("rollback"), (x, shift), np.roll(f, -(shift % n)) if n else np.zeros(0), ctx, must=good)
        if low("fused_rollback_add"):
            call(f"fused_rollback_add({what}, {shift})", low("fused_rollback_add"), (x, y, shift), f + np.roll(g, -(shift % n)) if n else np.zeros(0), ctx, must=good)
    if low("circular_prefix_sum"):
        for ns in list(range(0, 4 * n + 5)):
            e = np.cumsum(np.tile(f, ns // n + 1)[:ns]) if n else (np.zeros(0) if ns == 0 else None)
            call(f"circular_prefix_sum({what}, {ns})", low("circular_prefix_sum"), (x, ns), e, ctx, tol=1e-3, must=good and ns > 0)
    if low("fused_rollback_add"):
        for d in (-1, 1, 3):
            if n + d >= 0:
                z = values(n + d).astype("f4")
                call(f"fused_rollback_add of sizes {n}, {n + d}", low("fused_rollback_add"), (x, z, 1), None, ctx)


def ev_ffa(case, ctx):
    import riptide
    m, p, dtype, kind = case["m"], case["p"], case["dtype"], case["layout"]
    x, f = make((m, p), dtype, kind)
    if x is None:
        return ctx.ev(1, 0)
    exp = np.zeros((m, p))
    if m and p:
        exp = ref.ffa_apply(f, table(m))
    call(f"ffa2({m}x{p} {dtype} {kind})", riptide.ffa2, (x,), exp, ctx, must=dtype == "f4" and kind == "C" and m * p > 0)


_book = None


def table(m):
    global _book
    if _book is None:
        import riptide
        _book = ref.PathBook(riptide.ffa2)
    return _book.validated(m)


def ev_ffa_grid(case, ctx):
    """memory safety and values of the transform for large numbers of rows and columns."""
    import riptide
    m = case["m"]
    for p in case["ps"]:
        x = ((np.arange(m * p) * 31) % 17).astype("f4").reshape(m, p)
        out = riptide.ffa2(x)
        s = x.astype(float).sum()
        need(np.isfinite(out).all() and abs(out.sum(axis=1).astype(float) - s).max() <= 1e-5 * s * 10 + 1e-3, "ffa2 %dx%d: a row does not preserve the sum", m, p)
        y = x.ravel()[: m * p]
        need(np.array_equal(riptide.ffa1(y, p), out), "ffa1 differs from ffa2")
        ctx.ev(2)
        ctx.outcome(out.tobytes())


def ev_snr(case, ctx):
    import riptide
    shape, dtype, kind = tuple(case["shape"]), case["dtype"], case["layout"]
    x, f = make(shape, dtype, kind)
    if x is None:
        return ctx.ev(1, 0)
    b = shape[-1] if shape else 0
    ws = list(range(1, b))
    for widths in [ws, ws[::-1], ws[:1], ws[-1:], [], [0], [b], [b + 1], ws + [b], [2 ** 63], [0] + ws]:
        bad = any(not (0 < w < b) for w in widths) or b == 0
        for wd, wt in ((widths, "list"), (np.array(widths, dtype=np.uint64), "u8"), (np.array(widths, dtype=np.int64 if max(widths, default=0) < 2 ** 62 else np.uint64)[::-1][::-1], "rev")):
            rows = int(np.prod(shape[:-1]))
            exp = None
            if not bad:
                exp = np.zeros(shape[:-1] + (len(widths),))
                if rows and widths:
                    exp = ref.boxcar_snr_block(f.reshape(rows, b), widths).reshape(exp.shape)
            call(f"boxcar_snr({shape} {dtype} {kind}, widths {widths} {wt})", riptide.boxcar_snr, (x, wd), exp, ctx, tol=1e-3,
                 must=not bad and dtype in ("f4", "f8", "i4") and x.size > 0 and len(widths) > 0)
            for name in ("snr1", "snr2"):
                fn = low(name)
                if fn is None or len(shape) != (1 if name == "snr1" else 2):
                    continue
                call(f"{name}({shape} {dtype} {kind}, widths {widths} {wt})", fn, (x, wd, 1.0), exp, ctx, tol=1e-3)


def ev_down(case, ctx):
    import riptide
    n, dtype, kind = case["n"], case["dtype"], case["layout"]
    x, f = make((n,), dtype, kind)
    if x is None:
        return ctx.ev(1, 0)
    fs = sorted({a / q for q in (1, 2, 3, 7) for a in range(0, n * q + 3)} | {n - 1e-9, n + 1e-9, np.nextafter(n, 0), np.nextafter(1, 2), -1.0, 1e18} | {n / k for k in range(1, n + 1)})
    if dtype != "f4" or kind != "C":
        fs = fs[::5]
    for fac in fs:
        exp = None
        if 1.0 < fac <= n:
            k = math.floor(n / fac)
            exp = ref.downsample(f, fac, k)
        call(f"downsample(n={n} {dtype} {kind}, {fac!r})", riptide.downsample, (x, fac), exp, ctx, tol=1e-3, must=exp is not None and dtype == "f4" and kind == "C")


def ev_median(case, ctx):
    import riptide
    n, dtype, kind = case["n"], case["dtype"], case["layout"]
    x, f = make((n,), dtype, kind)
    if x is None:
        return ctx.ev(1, 0)
    for w in range(0, n + 4):
        ok = w % 2 == 1 and w < n
        exp = ref.running_median(f, w).astype(float) if ok else None
        call(f"running_median(n={n} {dtype} {kind}, {w})", riptide.running_median, (x, w), exp, ctx, must=ok and dtype in ("f4", "f8", "i4"))
        if low("running_median"):
            call(f"libcpp.running_median(n={n} {dtype} {kind}, {w})", low("running_median"), (x, w), exp, ctx)
    if dtype in ("f4", "f8", "i4", "i8") and n:
        for w in range(1, n + 3):
            for mp in (1, 3, 5):
                e = ref.fast_running_median(f, w, mp)
                call(f"fast_running_median(n={n} {dtype} {kind}, {w}, {mp})", riptide.fast_running_median, (x, w, mp), e, ctx, tol=1e-3)


def ev_search(case, ctx):
    """every small search runs inside its arrays and returns what it returns for a contiguous copy."""
    import riptide
    n, dtype, kind = case["n"], case["dtype"], case["layout"]
    x, f = make((n,), dtype, kind)
    if x is None:
        return ctx.ev(1, 0)
    try:
        A = riptide.TimeSeries.from_numpy_array(x, 1.0)
        B = riptide.TimeSeries.from_numpy_array(f, 1.0)
    except Exception:
        return ctx.ev(1, 0)
    keep = x.copy()
    for bmin, bmax in ((2, 2), (2, 5), (3, 4), (4, 6), (7, 9)):
        for ds in (1.0, 1.37, 2.0, 3.0):
            for mult in (1.5, 4.0, 1e5):
                for ducy in (0.2, 0.6, 5.0):
                    kw = dict(period_min=bmin * ds, period_max=bmin * ds * mult, bins_min=bmin, bins_max=bmax, ducy_max=ducy, fpmin=1, deredden=False, already_normalised=True)
                    what = f"ffa_search(n={n} {dtype} {kind}, {kw})"
                    r = []
                    for ts in (A, B):
                        junk()
                        try:
                            r.append(riptide.ffa_search(ts, **kw)[1])
                        except Exception as e:
                            r.append(type(e).__name__)
                    ctx.ev(1, int(not isinstance(r[0], str)))
                    if isinstance(r[0], str):
                        continue
                    need(not isinstance(r[1], str), "%s: refused for a contiguous copy", what)
                    need(np.isfinite(r[0].snrs).all() and (np.abs(r[0].snrs) < 1e6).all(), "%s: S/N are not plausible: %s", what, r[0].snrs.max() if r[0].snrs.size else 0)
                    need(np.array_equal(r[0].snrs, r[1].snrs) and np.array_equal(r[0].periods, r[1].periods) and np.array_equal(r[0].foldbins, r[1].foldbins),
                         "%s: differs from the search of a contiguous copy", what)
                    ctx.outcome((len(r[0].periods), float(r[0].snrs.sum())))
    if n > 2:
        for per, bins, sub in itertools.product((1.0, 2.0, 2.5, 3.3, n / 2.0, float(n)), (1, 2, 3, 5), (None, 1, 2)):
            r = []
            for ts in (A, B):
                try:
                    r.append(ts.fold(per, bins, subints=sub))
                except Exception as e:
                    r.append(None)
            if r[0] is not None:
                need(r[1] is not None and np.array_equal(r[0], r[1]) and (np.abs(r[0]) < 1e6).all(), "fold(n=%s %s %s, %s) differs from a contiguous copy", n, dtype, kind, (per, bins, sub))
            ctx.ev(1)
    need(np.array_equal(x, keep), "input modified")


def ev_big(case, ctx):
    import riptide
    kind, n = case["kind"], case["n"]
    x = ((np.arange(n) * 7) % 5).astype("f4")
    if kind == "profile":
        g = riptide.boxcar_snr(x, [1, n // 2])
        e = ref.boxcar_snr_block(x[None, :].astype(float), [1])[0]
        need(abs(float(g[0]) - e[0]) < 1e-2, "boxcar_snr of %d bins: %r, expected %r", n, g[0], e[0])
    elif kind == "median":
        for y in (x, np.arange(n, dtype="f4"), np.arange(n, 0, -1).astype("f4"), np.zeros(n, "f4")):
            w = n // 2 * 2 - 1 - (2 if n % 2 == 0 else 0)
            g = riptide.running_median(y, w)
            for i in (0, 1, n // 2, n - 1):
                h = w // 2
                e = np.concatenate(([y[0]] * h, y, [y[-1]] * h))[i:i + w]
                need(g[i] == np.sort(e)[w // 2], "running_median of %d values, window %d: index %d is %r", n, w, i, g[i])
    elif kind == "ffa":
        for p in (1, 2, n // 2, n):
            o = riptide.ffa1(x, p)
            need(abs(float(o[0].astype(float).sum()) - x[: n // p * p].astype(float).sum()) < 1e-3 * n, "ffa1 of %d samples at %d", n, p)
    ctx.ev(1)
    ctx.outcome((kind, n))


def spaces(tier):
    th = tier == "thorough"
    S = 13 if not th else 25
    lay1 = [l for l in LAYOUTS if l not in ("F", "T", "rev0", "bcast")]
    full = lambda sizes: [dict(n=n, dtype=d, layout=l) for n in sizes for d in DTYPES for l in lay1]
    short = lambda sizes: [dict(n=n, dtype=d, layout=l) for n in sizes for d in ("f4", "f8", "u1") for l in ("C", "strided", "reversed")]
    ffa = [dict(m=m, p=p, dtype=d, layout=l) for m in range(0, 8 if not th else 12) for p in range(0, 6 if not th else 10) for d in DTYPES for l in LAYOUTS]
    grid = [dict(m=m, ps=[1, 2, 3, 5, 8, m - 1 or 1, m, m + 1, 64]) for m in list(range(1, 70)) + [127, 128, 129, 255, 257, 500] + ([1000, 1023] if th else [])]
    snr = [dict(shape=s, dtype=d, layout=l) for s in ((0,), (1,), (2,), (3,), (5,), (8,), (0, 4), (4, 0), (1, 2), (3, 4), (2, 1), (1, 1), (2, 2, 3), (0, 0), (2, 0, 3), (5, 9))
           for d in DTYPES for l in LAYOUTS]
    return [Space("kernels", full(range(0, S)) + short([17, 31, 64, 100]), ev_kernels, "rollback, rotate-and-add, circular prefix sum: all shifts and lengths"),
            Space("ffa", ffa, ev_ffa, "FFA transform: all small shapes x dtypes x layouts"),
            Space("ffa-grid", grid, ev_ffa_grid, "FFA transform: many shapes", batch=1),
            Space("snr", snr, ev_snr, "boxcar S/N: shapes (empty axes included) x dtypes x layouts x width lists"),
            Space("downsample", full(range(0, S)) + short([31, 64]), ev_down, "all rational factors of small denominators"),
            Space("median", full(range(0, S)) + short([31, 64]), ev_median, "all windows"),
            Space("search", [dict(n=n, dtype=d, layout=l) for n in list(range(0, 24)) + [40, 63] for d, l in
                             (("f4", "C"), ("f4", "strided"), ("f4", "reversed"), ("f8", "C"), ("f8", "strided"), ("u1", "reversed"), ("f4", "readonly"), (">f4", "C"))],
                  ev_search, "all small searches and folds", batch=1),
            Space("big", [dict(kind=k, n=n) for k, n in (("profile", 100000), ("profile", 3000000), ("median", 301), ("median", 400), ("ffa", 70000))], ev_big,
                  "large sizes (stack use, recursion depth)", batch=1)]
