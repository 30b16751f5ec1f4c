"""C04: boxcar S/N."""
import itertools, math
import numpy as np
from .. import ref
from ..engine import Space, need, expect_raises

PROP = "C04"
LEVEL = "exploration"
RULE = ("profiles: all words over an alphabet of length b, plus structured larger ones; all widths 1..b-1; an evaluation is "
        "one (profile, width) S/N compared with the brute-force maximum; non-trivial when the profile is not constant")
ASSUMPTIONS = ["agreement within float32 rounding of the prefix sums"]


def tol(P, b, std):
    mag = np.abs(P).sum(axis=1).max() * 2 if P.size else 0.0
    return (3e-6 * mag * 2.5 + 1e-6) / std


def compare(P, widths, std, got, what, ctx):
    exp = ref.boxcar_snr_block(P, widths, std)
    need(got.shape == exp.shape, "%s: shape %s, expected %s", what, got.shape, exp.shape)
    bad = np.argwhere(~(np.abs(got - exp) <= tol(P, P.shape[1], std) + 2e-6 * np.abs(exp)))
    if len(bad):
        i, k = bad[0]
        need(False, "%s: profile %s width %d std %g: got %r, expected %r", what, P[i].tolist()[:40], widths[k], std, float(got[i, k]), float(exp[i, k]))
    nt = int((P.max(axis=1) != P.min(axis=1)).sum())
    ctx.ev(exp.size, nt * len(widths))
    ctx.outcome(np.round(exp[:200], 3).tobytes())


def ev_words(case, ctx):
    import riptide
    b, alpha, first = case["b"], case["alpha"], case["first"]
    P = np.array([first + list(w) for w in itertools.product(alpha, repeat=b - len(first))], dtype=np.float32)
    keep = P.copy()
    widths = np.arange(1, b)
    for std in (1.0, 2.5):
        got = riptide.boxcar_snr(P, widths, stdnoise=std)
        compare(P, widths, std, got, f"boxcar_snr b={b}", ctx)
    need((P == keep).all(), "input modified")


def ev_rows(case, ctx):
    """structured larger profiles: one bump per (position, width), through 1-D and 2-D entry points."""
    import riptide
    from riptide import libcpp
    b = case["b"]
    rows = []
    for w in case["ws"]:
        for s in range(0, b, max(1, b // 16)):
            x = np.zeros(b)
            x[(s + np.arange(w)) % b] = 1.0
            rows.append(x * 10 + (np.arange(b) * 7 % 5))
    P = np.array(rows, dtype=np.float32)
    widths = np.array(case["list"])
    got = riptide.boxcar_snr(P, widths)
    compare(P, widths, 1.0, got, f"boxcar_snr b={b} widths={case['list']}", ctx)
    w64 = widths.astype(np.uint64)
    for i in range(0, len(P), 7):
        g1 = libcpp.snr1(P[i], w64, 3.0)
        compare(P[i:i + 1], widths, 3.0, g1[None, :], f"snr1 b={b}", ctx)
        g0 = riptide.boxcar_snr(P[i], widths)
        need(g0.shape == (len(widths),), "1-D profile: output shape %s", g0.shape)
        need(np.array_equal(g0, got[i]), "1-D and 2-D results differ for the same profile")


def ev_orders(case, ctx):
    """every sequence of widths (any order, repetitions) up to a length; mountain, valley and rotated orders of longer ones"""
    import riptide
    b = case["b"]
    rng = np.arange(b)
    for k, ws in enumerate(case["seqs"]):
        # NOTE: other profiles each time, so that values left in memory by another call are not the right ones
        P = np.array([((rng * (3 + i) + k * 5 + i) % (7 + i + k % 5)) * 4.0 for i in range(3)], dtype=np.float32)
        compare(P, ws, 1.0, riptide.boxcar_snr(P, ws), f"boxcar_snr b={b} widths in the order {ws}", ctx)
        compare(P[1:2], ws, 1.0, riptide.boxcar_snr(P[1], ws)[None, :], f"boxcar_snr b={b} (one profile) widths in the order {ws}", ctx)


def ev_large(case, ctx):
    """many bins, or many profiles"""
    import riptide
    b, n = case["b"], case["n"]
    rng = np.random.RandomState(b + n)
    P = rng.randint(-3, 4, size=(n, b)).astype(np.float32)
    for i in range(n):
        w = 1 + (i * 7919) % (b // 2)
        s = (i * 104729) % b
        P[i, (s + np.arange(w)) % b] += 4
    widths = sorted({1, 2, 3, 5, 17, 100, 255, 256, 257, 511, 1000, b // 5, b // 3, b // 2, b - 2, b - 1})
    widths = [w for w in widths if 0 < w < b]
    for ws in (widths, widths[::-1]):
        compare(P, ws, 1.0, riptide.boxcar_snr(P, ws), f"boxcar_snr of {n} profiles of {b} bins", ctx)


def ev_dims(case, ctx):
    import riptide
    shape, widths = tuple(case["shape"]), case["widths"]
    n = int(np.prod(shape))
    x = ((np.arange(n) * 29 + 3) % 23).astype(case["dtype"]).reshape(shape)
    if case["order"] == "F":
        x = np.asfortranarray(x)
    elif case["order"] == "S":
        big = np.zeros(shape[:-1] + (shape[-1] * 2,), dtype=x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    keep = x.copy()
    got = riptide.boxcar_snr(x, widths if case["wtype"] == "list" else np.array(widths), stdnoise=1.5)
    need(got.shape == shape[:-1] + (len(widths),), "shape %s -> %s", shape, got.shape)
    compare(np.ascontiguousarray(x).reshape(-1, shape[-1]).astype(np.float32), widths, 1.5, got.reshape(-1, len(widths)), f"boxcar_snr{shape}", ctx)
    need((x == keep).all(), "input modified")


def ev_inv(case, ctx):
    import riptide
    b = case["b"]
    x = ((np.arange(b) * 17 + b) % 13).astype(np.float32)
    widths = np.arange(1, b)
    base = riptide.boxcar_snr(x, widths)
    R = np.array([np.roll(x, k) for k in range(b)])
    g = riptide.boxcar_snr(R, widths)
    need(np.allclose(g, base, rtol=1e-5, atol=1e-4), "b=%d: S/N changes when the profile is rotated", b)
    for c in (100.0, -3.0, 1000.0):
        g = riptide.boxcar_snr(x + np.float32(c), widths)
        need(np.allclose(g, base, rtol=1e-4, atol=1e-5 * b * abs(c)), "b=%d: S/N changes when adding a constant %g", b, c)
    g = riptide.boxcar_snr(x, widths, stdnoise=4.0)
    need(np.allclose(g * 4, base, rtol=1e-5, atol=1e-5), "S/N is not divided by the noise level")
    ctx.ev(b * (b - 1))
    ctx.outcome(base.tobytes())


def ev_refuse(case, ctx):
    import riptide
    from riptide import libcpp
    x = np.ones(case["b"], dtype=np.float32) + np.arange(case["b"])
    std = {"nan": float("nan"), "-inf": float("-inf")}.get(case["std"], case["std"])
    w = case["w"]
    calls = [lambda: riptide.boxcar_snr(x, w, stdnoise=std), lambda: riptide.boxcar_snr(np.array([x, x]), w, stdnoise=std)]
    for name, arr in (("snr1", x), ("snr2", np.array([x, x]))):
        low = getattr(libcpp, name, None)
        if low is not None:
            calls.append(lambda low=low, arr=arr: low(arr.astype(np.float32), np.array(w, dtype=np.uint64), std))
    for fn in calls:
        expect_raises((ValueError, OverflowError) if min(w) < 0 else ValueError, fn, f"S/N with b={case['b']} widths={w} std={std}")
        ctx.ev(1)


def spaces(tier):
    th = tier == "thorough"
    words = []
    for b in range(2, 9 if not th else 10):
        alpha = [0, 1, -2] if b <= (7 if not th else 8) else [0, 1]
        if b <= 4:
            alpha = [0, 1, -2, 3, 0.5]
        for first in ([[]] if b < 6 else [[a] for a in alpha]):
            words.append(dict(b=b, alpha=alpha, first=first))
    words += [dict(b=b, alpha=[0, 1], first=list(f)) for b in ((10,) if not th else (10, 12, 14)) for f in itertools.product([0, 1], repeat=2)]
    rows = []
    for b in (2, 3, 5, 16, 31, 64, 100, 255, 256, 260):
        full = list(range(1, b)) if b <= 31 else sorted({1, 2, 3, 5, 9, 13, b // 5, b // 2, b // 2 + 1, b - 2, b - 1})
        ws = sorted({1, 2, max(1, b // 7), max(1, b // 2), b - 1})
        ws = [w for w in ws if 0 < w < b]
        for lst in (full, full[::-1], [full[0]], [full[-1]], [full[-1], full[0], full[len(full) // 2], full[0]]):
            rows.append(dict(b=b, ws=ws, list=lst))
    orders = []
    for b in (3, 4, 5, 6) if not th else (3, 4, 5, 6, 7, 8):
        for n in range(2, 5 if b <= 5 or th else 4):
            seqs = [list(q) for q in itertools.product(range(1, b), repeat=n)]
            orders += [dict(b=b, seqs=seqs[i:i + 250]) for i in range(0, len(seqs), 250)]
    for b in (16, 33, 100, 256):
        full = sorted({1, 2, 3, 4, 6, 9, b // 3, b // 2, b - 2, b - 1})
        seqs = [full[i:] + full[:i] for i in range(len(full))] + [full[::2] + full[1::2][::-1], full[::2][::-1] + full[1::2]]
        seqs += [q[::-1] for q in seqs]
        orders.append(dict(b=b, seqs=seqs))
    dims = [dict(shape=s, widths=w, order=o, dtype=d, wtype=t)
            for s in ((8,), (1, 8), (3, 8), (2, 3, 8), (2, 1, 2, 8), (1, 1, 2), (4, 33))
            for w in ([1], [1, 2, 3], [7, 1, 3, 3]) if max(w) < s[-1]
            for o in "CFS" for d in ("f4", "f8", "i4", "u1") for t in ("list", "array")]
    dims += [dict(shape=(3, 2), widths=[1], order="C", dtype="f4", wtype="list")]
    bad = []
    for b in (2, 3, 8):
        for w in ([0], [b], [b + 1], [1, b], [0, 1], [b, 1], [1, 0], [-1], [2 ** 40], [1, 1, b]):
            bad.append(dict(b=b, w=w, std=1.0))
        for std in (0.0, -1.0, -1e-30, -0.0):
            bad.append(dict(b=b, w=[1], std=std))
    return [Space("words", words, ev_words, "all words over small alphabets, all widths"),
            Space("bumps", rows, ev_rows, "bump position x width x width list (reversed, repeated, single)"),
            Space("orders", orders, ev_orders, "all width sequences up to length 4, rotated / mountain / valley orders of longer lists"),
            Space("large", [dict(b=b, n=n) for b, n in ((257, 300), (512, 40), (1000, 20), (1024, 20), (2049, 10), (4100, 5), (8192, 4), (16, 20000), (5, 70000))] +
                  ([dict(b=b, n=n) for b, n in ((65537, 2), (20000, 5), (3, 1000000), (64, 100000))] if th else [dict(b=33000, n=1)]), ev_large, "many bins or many profiles"),
            Space("dims", dims, ev_dims, "1-4 dimensions, orders, dtypes, width containers"),
            Space("invariance", [dict(b=b) for b in list(range(2, 40)) + [64, 127, 128, 260]], ev_inv, "rotation, offset, noise scaling"),
            Space("refused", bad, ev_refuse, "invalid widths and noise levels")]
