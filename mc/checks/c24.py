"""C24: the single-series search tool."""
import contextlib, io, itertools, logging, math, os, sys
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C24"
LEVEL = "exploration"
RULE = ("all combinations of a grid of values of every option x data with zero, one, two and many signals x both file formats, and all 512 subsets of given / omitted options (short and long spellings, both orders), "
        "each run compared with the same search through the programming interface followed by a brute-force grouping, the printed table parsed back")
ASSUMPTIONS = ["trial S/Ns and single-trial peaks are those of ffa_search and find_peaks (decided by C03-C06, C22 and C17)", "the maximum duty cycle is 30%",
               "printed numbers are compared to within half a unit of their last printed digit"]

_dir = None
NAMES = ["Pmin", "Pmax", "bmin", "bmax", "smin", "wtsp", "rmed_width", "rmed_minpts", "clrad"]
DEFAULTS = dict(Pmin=1.0, Pmax=10.0, bmin=240, bmax=260, smin=7.0, wtsp=1.5, rmed_width=4.0, rmed_minpts=101, clrad=0.2)


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c24-")
    for n, ts, tag in ((2048, 1.0 / 64, "s"), (8192, 1.0 / 256, "d")):
        T = n * ts
        P = (1.0 if tag == "s" else 1.5) / ts
        sets = dict(none=np.random.RandomState(5).normal(size=n),
                    one=fx.pulse_series(n, P * 1.07, P * 0.1, 2.0),
                    two=fx.pulse_series(n, P * 1.07, P * 0.1, 2.0) + fx.pulse_series(n, P * 1.618, P * 0.2, 1.5, seed=2),
                    long=fx.pulse_series(n, P * 2.31, P * 0.25, 3.0),
                    flat=np.where(np.arange(n) % 2, 1.0, -1.0))
        for name, x in sets.items():
            fx.write_presto(_dir, f"{tag}_{name}", x, ts, 12.5)
            fx.write_sigproc(_dir, f"{tag}_{name}", x, ts, 12.5)
    x = fx.pulse_series(2048, 68.5, 6.4, 2.0)
    fx.write_sigproc(_dir, "s_nodm", x, 1.0 / 64, None)


def run_tool(argv):
    """(result, standard output)"""
    from riptide.apps.rseek import get_parser, run_program
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        res = run_program(get_parser().parse_args(argv))
    return res, out.getvalue()


def groups(freqs, r):
    """Friends of friends, brute force."""
    n = len(freqs)
    lab = list(range(n))
    for i in range(n):
        for j in range(i):
            if abs(freqs[i] - freqs[j]) <= r:
                a, b = lab[i], lab[j]
                if a != b:
                    lab = [b if l == a else l for l in lab]
    return [[i for i in range(n) if lab[i] == l] for l in sorted(set(lab))]


_cache = {}


def expected(path, fmt, o):
    """Rows (dicts), best first, or None if the grouping is a matter of rounding."""
    from riptide import TimeSeries, ffa_search, find_peaks
    kp = (path, o["Pmin"], o["Pmax"], o["bmin"], o["bmax"], o["wtsp"], o["rmed_width"], o["rmed_minpts"])
    if kp not in _cache:
        if len(_cache) > 4:
            _cache.clear()
        ts = (TimeSeries.from_sigproc if fmt == "sigproc" else TimeSeries.from_presto_inf)(path)
        _cache[kp] = (ts.nsamp * ts.tsamp, ffa_search(ts, period_min=o["Pmin"], period_max=o["Pmax"], bins_min=o["bmin"], bins_max=o["bmax"], wtsp=o["wtsp"], ducy_max=0.3,
                                                      rmed_width=o["rmed_width"], rmed_minpts=o["rmed_minpts"], fpmin=1)[1])
    T, pg = _cache[kp]
    peaks, _ = find_peaks(pg, smin=o["smin"], clrad=o["clrad"])
    fr = [p.freq for p in peaks]
    r = o["clrad"] / T
    s = sorted(fr)
    if any(abs(b - a - r) < 1e-12 * b for a, b in zip(s, s[1:])):
        return None
    rows = []
    for g in groups(fr, r):
        m = max(peaks[i].snr for i in g)
        rows.append((m, [peaks[i] for i in g if peaks[i].snr == m]))
    rows.sort(key=lambda t: -t[0])
    return rows


def compare(res, text, rows, o, msg):
    if not rows:
        need(res is None, "%s: no significant peak, but the tool returned %s", msg, res)
        need("no peaks" in text.lower(), "%s: no significant peak, but the tool printed %r", msg, text[:200])
        return
    need(res is not None, "%s: nothing returned, expected %d rows, first %s", msg, len(rows), rows[0])
    need(set(res.columns) >= {"period", "freq", "width", "ducy", "dm", "snr"}, "%s: columns %s", msg, list(res.columns))
    need(len(res) == len(rows), "%s: %d rows instead of %d: periods %s instead of %s", msg, len(res), len(rows), list(res.period)[:8], [r[1][0].period for r in rows][:8])
    got = [dict((c, res[c].values[i]) for c in ("period", "freq", "width", "ducy", "dm", "snr")) for i in range(len(res))]
    left = list(rows)
    for i, g in enumerate(got):
        need(g["snr"] > o["smin"], "%s: row %d has S/N %s, minimum %s", msg, i, g["snr"], o["smin"])
        need(i == 0 or g["snr"] <= got[i - 1]["snr"], "%s: rows %d and %d in increasing order of S/N", msg, i - 1, i)
        hit = [k for k, (m, ps) in enumerate(left) if any(_same(g, p) for p in ps)]
        need(hit, "%s: row %d: %s is not the brightest of a group: %s", msg, i, g, [r[1][0] for r in rows][:6])
        left.pop(hit[0])
    lines = [l.split() for l in text.strip().splitlines() if l.strip()]
    need(lines and lines[0] == ["period", "freq", "width", "ducy", "dm", "snr"], "%s: printed header %r", msg, text.splitlines()[:2])
    need(len(lines) == 1 + len(rows), "%s: %d lines printed for %d rows", msg, len(lines) - 1, len(rows))
    for l, g in zip(lines[1:], got):
        need(len(l) == 6, "%s: printed row %s", msg, l)
        for c, s in zip(("period", "freq", "width", "ducy", "dm", "snr"), l):
            v, scale = g[c], 1.0
            if c == "ducy":
                need(s.endswith("%"), "%s: duty cycle printed as %r", msg, s)
                s, scale = s[:-1], 100.0
            if v is None or v != v:
                continue
            x = float(s)
            dec = len(s.partition(".")[2])
            need(dec >= dict(period=6, freq=6, width=0, ducy=1, dm=1, snr=1)[c], "%s: %s printed as %r", msg, c, s)
            need(abs(x - v * scale) <= 0.5000001 * 10.0 ** -dec + 1e-9 * abs(x), "%s: %s printed as %r, returned %r", msg, c, s, v)


def _same(g, p):
    return g["period"] == p.period and g["freq"] == p.freq and g["width"] == p.width and g["ducy"] == p.ducy and g["snr"] == p.snr and (
        g["dm"] == p.dm or (p.dm is None and (g["dm"] is None or g["dm"] != g["dm"])))


def path_of(name, fmt):
    return os.path.join(_dir, name + (".inf" if fmt == "presto" else ".tim"))


def one(name, fmt, opts, ctx, omitted=(), style=0):
    o = dict(DEFAULTS, **opts)
    path = path_of(name, fmt)
    flags = ["-f" if style % 2 == 0 else "--format", fmt]
    rest = []
    for k in NAMES:
        if k not in omitted:
            rest += ([f"--{k}", repr(o[k])] if style < 2 else [f"--{k}={o[k]!r}"])
    argv = flags + rest + [path] if style % 2 == 0 else [path] + rest + flags
    msg = f"rseek {' '.join(argv).replace(_dir, '')}"
    rows = expected(path, fmt, o)
    if rows is None:
        ctx.extra["ambiguous"] += 1
        return
    before = [open(f, "rb").read() for f in files_of(name)]
    res, text = run_tool(argv)
    compare(res, text, rows, o, msg)
    need([open(f, "rb").read() for f in files_of(name)] == before, "%s: the data files were modified", msg)
    ctx.ev(1, nontrivial=bool(rows))
    ctx.outcome((msg, len(rows)))
    ctx.extra["rows"] += len(rows)


def files_of(name):
    return [os.path.join(_dir, f) for f in sorted(os.listdir(_dir)) if f.rpartition(".")[0] == name]


def ev_grid(case, ctx):
    logging.disable(logging.CRITICAL)
    for sm, cl in case["sc"]:
        one(case["name"], case["fmt"], dict(case["o"], smin=sm, clrad=cl), ctx)


def ev_subsets(case, ctx):
    logging.disable(logging.CRITICAL)
    for mask in case["masks"]:
        omitted = [k for i, k in enumerate(NAMES) if mask >> i & 1]
        o = {k: v for k, v in case["o"].items() if k not in omitted}
        one(case["name"], case["fmt"], o, ctx, omitted, style=(mask + bin(mask).count("1")) % 4)


def ev_bad(case, ctx):
    logging.disable(logging.CRITICAL)
    p = path_of("s_one", "presto")
    ok = ["-f", "presto", "--Pmin", "0.5", "--Pmax", "2.0", "--bmin", "20", "--bmax", "22", p]
    for argv in ([p], ["-f", "fits", p], ["-f", "presto"], ok + ["--bmin", "2.5"], ok + ["--Pmin", "x"], ok + ["--nonsense", "1"], ok + ["--rmed_minpts", "10.5"], []):
        try:
            res = run_tool(argv)
        except SystemExit as e:
            need(e.code not in (0, None), "rseek %s: exit status %s", argv, e.code)
        else:
            raise Violation(f"rseek {argv}: accepted")
        ctx.ev(1)
        ctx.outcome(("bad", repr(argv)))
    for argv in (["--help"], ["--version"]):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                run = run_tool_raw(argv)
        except SystemExit as e:
            need(e.code in (0, None), "rseek %s: exit status %s", argv, e.code)
        else:
            raise Violation(f"rseek {argv}: went on")
        need(out.getvalue().strip(), "rseek %s printed nothing", argv)
        ctx.ev(1)


def run_tool_raw(argv):
    from riptide.apps.rseek import get_parser
    return get_parser().parse_args(argv)


def ev_main(case, ctx):
    """The installed command."""
    from riptide.apps import rseek
    logging.disable(logging.CRITICAL)
    for fmt in ("presto", "sigproc"):
        for name in ("s_none", "s_one", "s_two"):
            argv = ["-f", fmt, "--Pmin", "0.6", "--Pmax", "3.0", "--bmin", "20", "--bmax", "24", path_of(name, fmt)]
            _, text = run_tool(argv)
            out = io.StringIO()
            old = sys.argv
            sys.argv = ["rseek"] + argv
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    rseek.main()
            finally:
                sys.argv = old
            need(out.getvalue() == text, "rseek command on %s (%s) printed %r, run_program printed %r", name, fmt, out.getvalue(), text)
            ctx.ev(1)
            ctx.outcome((fmt, name))


def spaces(tier):
    deep = tier == "thorough"
    names = ["s_none", "s_one", "s_two", "s_long", "s_flat"]
    PP = [(0.6, 3.0), (1.0, 1.2), (1.5, 2.0)] + ([(0.5, 8.0), (2.0, 16.0)] if deep else [(2.0, 12.0)])
    BB = [(20, 24), (30, 31)] + ([(16, 30), (8, 10)] if deep else [])
    W = [1.2, 1.5, 2.5] + ([1.05, 4.0] if deep else [])
    R = [(4.0, 101), (2.0, 15), (0.7, 45)] + ([(8.0, 11), (1.0, 201)] if deep else [])
    SM = [7.0, 5.0, 4.0, 12.0] + ([3.0, 6.0, 30.0] if deep else [])
    CL = [0.2, 0.0001, 1.0] + ([0.05, 5.0, 100.0] if deep else [30.0])
    grid = []
    for name, fmt, (a, b), (b0, b1), w, (rw, rm) in itertools.product(names, ("presto", "sigproc"), PP, BB, W, R):
        if a / (1.0 / 64) < b0:
            continue
        grid.append(dict(name=name, fmt=fmt, o=dict(Pmin=a, Pmax=b, bmin=b0, bmax=b1, wtsp=w, rmed_width=rw, rmed_minpts=rm), sc=list(itertools.product(SM, CL))))
    for o in ((0.6, 3.0, 20, 24), (1.0, 1.2, 30, 31)):
        grid.append(dict(name="s_nodm", fmt="sigproc", o=dict(Pmin=o[0], Pmax=o[1], bmin=o[2], bmax=o[3], wtsp=1.5, rmed_width=4.0, rmed_minpts=101), sc=list(itertools.product(SM, CL))))
    other = dict(Pmin=1.2, Pmax=5.0, bmin=250, bmax=255, smin=5.0, wtsp=2.0, rmed_width=2.5, rmed_minpts=51, clrad=0.8)
    subs = []
    for name, fmt in itertools.product(["d_one", "d_two"] + (["d_long", "d_none"] if deep else []), ("presto", "sigproc")):
        masks = list(range(512))
        for i in range(0, 512, 8):
            if not deep and (name, fmt) != ("d_two", "presto") and i % 64:
                continue
            subs.append(dict(name=name, fmt=fmt, o=other, masks=masks[i:i + 8]))
    return [Space("errors", [dict()], ev_bad, note="command lines that are no valid ones, --help, --version"),
            Space("command", [dict()], ev_main, note="the console entry point"),
            Space("grid", grid, ev_grid, note="option grid x data x formats"),
            Space("subsets", subs, ev_subsets, note="subsets of options left at their defaults, spellings and orders")]
