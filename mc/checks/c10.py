"""C10: histories of TimeSeries operations against a float64 model."""
import itertools
import numpy as np
from .. import ref
from ..engine import Space, Violation, need, digest

PROP = "C10"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of operation histories of the real class against a float64 model, every reachable state checked"
RULE = ("all histories of normalise / deredden / downsample / copy / metadata assignment, each in place or not, applied to any of the series alive, up to the depth bound, from several "
        "initial series; after the last operation of every history all series alive, the caller's array and the caller's metadata are compared with the model")
ASSUMPTIONS = ["non-contiguous arrays are only wrapped with copy=True (the compiled downsampling refuses others, see C08)", "constant data are not normalised (their variance is zero)", "float32 results may differ from the float64 model by rounding (2e-6 of the data range)"]

OPS = [("normalise", None), ("deredden", 3.0), ("deredden", 0.9), ("downsample", 2), ("downsample", 1.3), ("copy", None), ("meta", None)]
MINPTS = 5


def data(kind):
    n = 61
    i = np.arange(n)
    x = ((i * 37) % 23) + 0.25 * ((i * 11) % 7) + 0.1 * i
    if kind == "f32":
        return x.astype(np.float32)
    if kind == "f64":
        return x * 1.5 - 7
    if kind == "int":
        return ((i * 37) % 23).astype(np.int64)
    if kind == "strided":
        b = np.zeros(2 * n, dtype=np.float32)
        b[::2] = x
        return b[::2]
    if kind == "offset":
        return (x + 1e6).astype(np.float32)
    if kind == "list":
        return x.tolist()
    raise KeyError(kind)


META = {"source_name": "src", "dm": 12.5, "mjd": 59000.0, "fname": "/a/b", "extra": [1, {"k": 2}]}
START = [("f32", False, True), ("f32", True, True), ("f64", True, False), ("int", False, True), ("strided", True, True), ("offset", False, True), ("list", True, False)]


class Model:
    def __init__(self, x, tsamp, meta):
        self.x, self.tsamp, self.meta = x, tsamp, meta   # meta without tobs


class World:
    def __init__(self, start):
        import riptide
        kind, cp, meta = start
        self.arr = data(kind)
        self.arr0 = np.array(self.arr, copy=True)
        self.meta = {k: v for k, v in META.items()} if meta else None
        self.copied = cp
        self.tsamp = 0.5
        self.ts = [riptide.TimeSeries(self.arr, self.tsamp, metadata=self.meta, copy=cp)]
        base = {k: None for k in ("source_name", "skycoord", "dm", "mjd", "fname")}
        if meta:
            base.update(META)
        self.model = [Model(np.asarray(self.arr0, dtype=np.float32), self.tsamp, base)]
        self.inplace = False


def ops(nseries, maxs):
    out = []
    for k in range(nseries):
        for (op, arg) in OPS:
            if op == "meta":
                out.append((k, op, arg, True))
                continue
            if op != "copy":
                out.append((k, op, arg, True))
            if nseries < maxs:
                out.append((k, op, arg, False))
    return out


def grows(op):
    return op[1] != "meta" and not op[3]


def histories(depth, maxs):
    """All histories of exactly this depth."""
    out = []
    def rec(h, n):
        if len(h) == depth:
            out.append(h)
            return
        for o in ops(n, maxs):
            rec(h + [o], n + (1 if grows(o) else 0))
    rec([], 1)
    return out


class Refused(Exception):
    pass


class Either(Exception):
    """May be refused, or treated as a window of one sample."""


def define(op, arg, m):
    """(new data float64, new tsamp), from the definitions."""
    x = m.x.astype(float)
    if op == "normalise":
        return (x - x.mean()) / np.sqrt(((x - x.mean()) ** 2).mean()), m.tsamp
    if op == "deredden":
        w = int(round(arg / m.tsamp))
        if w < 1:
            raise Either
        try:
            med = ref.fast_running_median(m.x, w, MINPTS)
        except Exception:
            raise Refused
        if med is None:
            raise Refused
        return x - med, m.tsamp
    if op == "downsample":
        if not 1 < arg <= x.size:
            raise Refused
        return ref.downsample(x, arg), m.tsamp * arg
    return x, m.tsamp


def close(a, b, msg):
    need(a.size == b.size, "%s: %d samples, expected %d", msg, a.size, b.size)
    tol = 2e-6 * (1.0 + np.abs(b).max(initial=0.0))
    bad = np.abs(a.astype(float) - b) > tol
    need(not bad.any(), "%s: sample %s is %s, expected %s", msg, np.argmax(bad), a[np.argmax(bad)] if a.size else None, b[np.argmax(bad)] if a.size else None)


def check_series(t, m, msg, exact):
    d = t.data
    need(isinstance(d, np.ndarray) and d.dtype == np.float32 and d.ndim == 1, "%s: data is %s %s", msg, type(d), getattr(d, "dtype", None))
    if exact:
        need(d.size == m.x.size and d.tobytes() == m.x.tobytes(), "%s: data changed without being operated on", msg)
    need(abs(t.tsamp - m.tsamp) <= 1e-12 * m.tsamp, "%s: tsamp is %s, expected %s", msg, t.tsamp, m.tsamp)
    L = d.size * m.tsamp
    need(t.nsamp == d.size, "%s: nsamp is %s for %d samples", msg, t.nsamp, d.size)
    for what, v in (("length", t.length), ("tobs", t.tobs), ("metadata tobs", t.metadata["tobs"])):
        need(v is not None and abs(v - L) <= 1e-9 * L, "%s: %s is %s, expected %s", msg, what, v, L)
    md = {k: v for k, v in t.metadata.items() if k != "tobs"}
    need(md == m.meta, "%s: metadata is %s, expected %s", msg, md, m.meta)


def apply(w, op):
    """Applies one operation to the world; returns index of the series expected to differ or be new."""
    k, name, arg, inplace = op
    t, m = w.ts[k], w.model[k]
    if name == "meta":
        t.metadata["note%d" % len(w.ts)] = k
        m.meta = dict(m.meta, **{"note%d" % len(w.ts): k})
        return None, None
    either = False
    try:
        exp = define(name, arg, m)
    except Refused:
        exp = None
    except Either:
        exp = m.x * 0.0, m.tsamp
        either = True
    if name == "copy":
        call = t.copy
    elif name == "normalise":
        call = lambda: t.normalise(inplace=inplace)
    elif name == "deredden":
        call = lambda: t.deredden(arg, minpts=MINPTS, inplace=inplace)
    else:
        call = lambda: t.downsample(arg, inplace=inplace)
    try:
        r = call()
    except (ValueError, IndexError) as e:
        if exp is not None and not either:
            raise Violation(f"{name}({arg}) raised {type(e).__name__}: {e}")
        return None, None
    need(exp is not None, "%s(%s) of %d samples should have been refused", name, arg, m.x.size)
    if inplace:
        need(r is None or r is t, "%s in place returned %s", name, type(r))
        w.inplace = True
        tgt = t
        j = k
        mm = m
    else:
        need(type(r) is type(t), "%s returned %s", name, type(r))
        need(r is not t, "%s returned the series itself", name)
        w.ts.append(r)
        mm = Model(None, None, dict(m.meta))
        w.model.append(mm)
        tgt, j = r, len(w.ts) - 1
    return j, exp


def ev(case, ctx):
    start = START[case["start"]]
    for h in case["hist"]:
        w = World(start)
        msg = f"start {start}, operations {h}"
        pruned = False
        for i, op in enumerate(h):
            if op[0] >= len(w.ts):    # an earlier operation that would have made this series was refused
                pruned = True
                break
            j, exp = apply(w, tuple(op))
            last = i == len(h) - 1
            if last and exp is not None and op[1] != "copy":
                close(w.ts[j].data, exp[0], f"{msg}: series {j} after {op[1]}")
            if exp is not None:
                if op[1] == "copy":
                    w.model[j].x = w.model[op[0]].x
                else:
                    w.model[j].x = np.array(w.ts[j].data, copy=True)
                w.model[j].tsamp = exp[1]
            ctx.transitions += 1
        if pruned:
            continue
        for j, (t, m) in enumerate(zip(w.ts, w.model)):
            check_series(t, m, f"{msg}: series {j}", True)
        if w.copied or not w.inplace:
            need(np.array_equal(np.asarray(w.arr), np.asarray(w.arr0)), "%s: the caller's array changed", msg)
        if w.meta is not None:
            need(w.meta == META, "%s: the caller's metadata changed", msg)
        st = tuple((digest(m.x.tobytes()), round(m.tsamp, 9), tuple(sorted(m.meta))) for m in w.model)
        ctx.state(st)
        ctx.traces += 1
        ctx.ev(1)
        ctx.outcome(st[-1])


def ev_forms(case, ctx):
    """In-place and out-of-place forms of a whole sequence of operations agree."""
    import riptide
    start = START[case["start"]]
    for h in case["hist"]:
        a = World(start).ts[0]
        b = World(("f32" if start[0] == "f32" else start[0], True, start[2])).ts[0]
        raised = [False, False]
        for name, arg in h:
            args = () if arg is None else (arg,)
            kw = {"minpts": MINPTS} if name == "deredden" else {}
            if name == "copy":
                a = a.copy()
                b = b.copy()
                continue
            try:
                a = getattr(a, name)(*args, **kw)
            except (ValueError, IndexError):
                raised[0] = True
            try:
                getattr(b, name)(*args, inplace=True, **kw)
            except (ValueError, IndexError):
                raised[1] = True
            need(raised[0] == raised[1], "start %s, %s: only one of the two forms was refused", start, h)
            if raised[0]:
                break
            need(a.data.dtype == b.data.dtype and a.data.shape == b.data.shape, "start %s, %s: in place %s %s, out of place %s %s", start, h, b.data.dtype, b.data.shape, a.data.dtype, a.data.shape)
            close(a.data, b.data.astype(float), f"start {start}, {h}: the two forms differ")
            need(a.tsamp == b.tsamp and dict(a.metadata) == dict(b.metadata), "start %s, %s: tsamp or metadata differ: %s %s / %s %s", start, h, a.tsamp, a.metadata, b.tsamp, b.metadata)
            ctx.transitions += 1
        ctx.ev(1)
        ctx.traces += 1
        ctx.state((case["start"], repr(h)))


def ev_values(case, ctx):
    """Normalisation of long series with a large mean: accumulators must not lose precision."""
    import riptide
    n, mean, std = case["n"], case["mean"], case["std"]
    i = np.arange(n, dtype=np.int64)
    x = (mean + std * (((i * 7919) % 1009) / 500.0 - 1.0)).astype(np.float32)
    for inplace in (False, True):
        t = riptide.TimeSeries(x, 1e-3, copy=True)
        r = t.normalise(inplace=inplace)
        r = t if inplace else r
        exp = (x.astype(float) - x.astype(float).mean()) / x.astype(float).std()
        close(r.data, exp, f"n={n} mean={mean} std={std} inplace={inplace}")
        y = r.data.astype(float)
        need(abs(y.mean()) < 1e-5 and abs(y.var() - 1) < 1e-5, "n=%s mean=%s std=%s: mean %s var %s after normalise", n, mean, std, y.mean(), y.var())
        ctx.ev(1)
        ctx.transitions += 1
        ctx.traces += 1
        ctx.state((n, mean, std, inplace))


def group(hists, start, size):
    return [dict(start=start, hist=[list(map(list, h)) for h in hists[i:i + size]]) for i in range(0, len(hists), size)]


def spaces(tier):
    deep = tier == "thorough"
    sp = []
    cases = []
    for s in range(len(START)):
        for d in (1, 2):
            cases += group(histories(d, 3), s, 50)
    sp.append(Space("depth2", cases, ev, "all histories of 1 and 2 operations, every initial series"))
    cases = []
    for s in (range(len(START)) if deep else (0, 1, 3, 4)):
        cases += group(histories(3, 3), s, 100)
    sp.append(Space("depth3", cases, ev, "all histories of 3 operations, up to 3 series alive"))
    if deep:
        sp.append(Space("depth4", group(histories(4, 3), 0, 200) + group(histories(4, 3), 4, 200), ev, "all histories of 4 operations, up to 3 series alive"))
    else:
        sp.append(Space("depth4", group(histories(4, 2), 0, 200), ev, "all histories of 4 operations, up to 2 series alive"))
    seqs = [list(map(list, c)) for d in range(1, 6 if deep else 5) for c in itertools.product([o for o in OPS if o[0] != "meta"], repeat=d)]
    sp.append(Space("forms", [dict(start=s, hist=seqs[i:i + 100]) for s in range(len(START)) for i in range(0, len(seqs), 100)], ev_forms, "whole sequences in place and out of place"))
    ns = [2, 3, 1000, 100003] + ([3000017] if deep else [])
    sp.append(Space("values", [dict(n=n, mean=m, std=s) for n in ns for m in (0.0, -50.0, 1e4, 1e6, -3e7) for s in (1e-3, 1.0, 300.0, 1e6) if s > 1e-5 * abs(m)], ev_values, "normalisation accuracy"))
    return sp
