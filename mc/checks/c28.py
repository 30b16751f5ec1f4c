"""C28: candidates, their profile, DM curve and plot."""
import io, itertools, logging, math, os, struct, warnings
from fractions import Fraction
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C28"
LEVEL = "exploration"
RULE = ("construction: all combinations of series length, number of periods (whole, just over one, fractional), bins and sub-integrations (none, one, fitting, exactly fitting, too many); "
        "DM curves: all peak tables of up to 4 (thorough 5) peaks over a grid of DMs and S/Ns; plots: shapes x peak tables x all subsets of absent metadata x special names, as built, pickled and reloaded from JSON; "
        "complete pipeline runs with plots on injected peaks")
ASSUMPTIONS = ["folded values are those of TimeSeries.fold (decided by C08)", "the plot is inspected through matplotlib's own objects (image, line and text artists) and the header of the PNG file"]

_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c28-")
    os.environ["MPLBACKEND"] = "Agg"


def work():
    d = os.path.join(_dir, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def series(n, tsamp, dm=3.0, meta=None, data=None):
    from riptide import TimeSeries, Metadata
    from astropy.coordinates import SkyCoord
    m = dict(source_name="J0000-0000", dm=dm, mjd=59000.5, skycoord=SkyCoord(10.0, -5.0, unit="deg", frame="icrs"))
    m.update(meta or {})
    m = {k: v for k, v in m.items() if v is not Ellipsis}
    if data is None:
        data = np.random.RandomState(n % 997).normal(size=n)
    return TimeSeries(np.asarray(data, dtype=np.float32), tsamp, metadata=Metadata(m), copy=True)


def cluster(peaks):
    from riptide.pipeline.peak_cluster import PeakCluster
    return PeakCluster(peaks, rank=0)


def full_periods(length, period):
    q = Fraction(length) / Fraction(period)
    k = round(q)
    return k if abs(q - k) < Fraction(1, 10 ** 12) * k else math.floor(q)


def near(a, b, scale):
    return bool((np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)) <= 2e-5 * scale).all())


def ev_build(case, ctx):
    from riptide import Candidate
    n, tsamp = case["n"], case["tsamp"]
    ts = series(n, tsamp)
    scale = float(np.abs(ts.data).max()) * 3
    for turns, bins in itertools.product(case["turns"], case["bins"]):
        period = ts.length / turns
        if not period / bins > tsamp * 1.0001:
            continue
        m = full_periods(ts.length, period)
        for s in [None, 1, 2, 3, 7] + sorted({m - 1, m, m + 1, m + 2, 2 * m, 1000}):
            if s is not None and s < 1:
                continue
            if s is not None and m >= s and s * period >= ts.length and s != m:
                raise HarnessError("inconsistent case")
            pk = [pipe.peak(freq=turns / ts.length, snr=20.0, dm=3.0, width=2, ducy=0.1), pipe.peak(freq=turns / ts.length * 1.0001, snr=9.0, dm=4.0), pipe.peak(freq=turns / ts.length * 0.9999, snr=19.0, dm=2.0)]
            P = pk[0].period
            mm = full_periods(ts.length, P)
            msg = f"candidate of period {P} ({turns} turns) in {n} samples of {tsamp}, bins {bins}, subints {s}"
            order = case["order"]
            before = fx.canon(ts)
            cl = cluster([pk[i] for i in order])
            kb = repr(cl)
            c = Candidate.from_pipeline_output(ts, cl, bins, subints=s)
            rows = mm if s is None or s > mm else s
            shapes = [(rows, bins)] if rows > 1 else [(bins,), (1, bins)]
            need(c.subints.shape in shapes, "%s: sub-integrations of shape %s instead of %s (%d full periods)", msg, c.subints.shape, shapes[0], mm)
            ref = ts.fold(P, bins, subints=rows)
            need(near(np.atleast_2d(c.subints), np.atleast_2d(ref), scale), "%s: sub-integrations differ from the folded data", msg)
            p = c.profile
            need(p.shape == (bins,), "%s: profile of shape %s", msg, p.shape)
            need(near(p, np.atleast_2d(c.subints).sum(axis=0), scale), "%s: the profile is not the sum of the sub-integrations", msg)
            need(near(p, ts.fold(P, bins, subints=1), scale), "%s: the profile differs from the folded data", msg)
            want = dict(period=P, freq=pk[0].freq, dm=3.0, width=2, ducy=0.1, snr=20.0)
            need({k: c.params.get(k) for k in want} == want, "%s: parameters %s instead of %s", msg, c.params, want)
            need(fx.canon(dict(c.tsmeta)) == fx.canon(dict(ts.metadata)), "%s: metadata %s", msg, c.tsmeta)
            need(len(c.peaks) == 3 and sorted(c.peaks.snr) == [9.0, 19.0, 20.0] and sorted(c.peaks.period) == sorted(x.period for x in pk), "%s: peaks\n%s", msg, c.peaks)
            dm, sn = c.dm_curve
            need(list(dm) == [2.0, 3.0, 4.0] and list(sn) == [19.0, 20.0, 9.0], "%s: DM curve %s %s", msg, dm, sn)
            need(fx.canon(ts) == before and repr(cl) == kb, "%s: the time series or the cluster was modified", msg)
            ctx.ev(1, nontrivial=rows > 1)
            ctx.outcome((n, tsamp, turns, bins, s, c.subints.shape))


def ev_dmcurve(case, ctx):
    from riptide import Candidate
    import riptide
    grid = [tuple(g) for g in case["grid"]]
    sub = np.arange(8.0).reshape(2, 4)
    for rest in itertools.product(grid, repeat=case["size"] - len(case["head"])):
        pts = [tuple(h) for h in case["head"]] + list(rest)
        cl = cluster([pipe.peak(period=1.0, dm=d, snr=s) for d, s in pts])
        c = Candidate(cl.centre.summary_dict(), {}, cl.summary_dataframe(), sub)
        dm, sn = c.dm_curve
        best = {}
        for d, s in pts:
            best[d] = max(best.get(d, -1e300), s)
        msg = f"peaks (DM, S/N) {pts}"
        need(len(dm) == len(sn) and list(map(float, dm)) == sorted(best), "%s: DM curve at %s", msg, list(dm))
        need([float(s) for s in sn] == [best[d] for d in sorted(best)], "%s: DM curve values %s at %s", msg, list(sn), list(dm))
        ctx.ev(1, nontrivial=len(best) < len(pts))
        ctx.outcome(tuple(pts))
    need(bool((sub == np.arange(8.0).reshape(2, 4)).all()), "sub-integrations modified")


def png_size(path):
    with open(path, "rb") as f:
        h = f.read(33)
        f.seek(-12, 2)
        t = f.read()
    if h[:8] != b"\x89PNG\r\n\x1a\n" or h[12:16] != b"IHDR" or t[4:8] != b"IEND":
        return None
    return struct.unpack(">II", h[16:24])


def texts(fig):
    import matplotlib.text
    return [t.get_text() for t in fig.findobj(matplotlib.text.Text) if t.get_text().strip()]


def inspect_fig(fig, c, msg):
    X = np.atleast_2d(c.subints)
    dm, sn = c.dm_curve
    ok_im = ok_dm = False
    for ax in fig.axes:
        for im in ax.images:
            A = np.asarray(im.get_array())
            if A.ndim == 2 and A.shape[0] == X.shape[0] and A.shape[1] >= X.shape[1] and bool((A[:, :X.shape[1]] == X).all()):
                reps = A.shape[1] - X.shape[1]
                ok_im = ok_im or bool((A[:, X.shape[1]:] == X[:, :reps]).all())
        for l in ax.lines:
            x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
            if x.shape == dm.shape and bool((x == dm).all()) and bool((y == sn).all()):
                ok_dm = True
                lo, hi = sorted(ax.get_xlim())
                need(lo <= dm.min() and hi >= dm.max(), "%s: the plotted DM range %s leaves points out: %s", msg, (lo, hi), dm)
    need(ok_im, "%s: the sub-integrations are not plotted", msg)
    need(ok_dm, "%s: the DM curve is not plotted", msg)
    tx = texts(fig)
    nums = set()
    for t in tx:
        try:
            nums.add(float(t))
        except ValueError:
            pass
    p = c.params
    for k, v, tol in (("period (ms)", p["period"] * 1e3, 1e-6), ("DM", p["dm"], 0.01), ("width", p["width"], 0), ("duty cycle (%)", p["ducy"] * 100, 0.01), ("S/N", p["snr"], 0.1)):
        need(any(abs(x - v) <= 0.51 * tol + 1e-12 * abs(v) for x in nums), "%s: %s = %s is not in the table of parameters: %s", msg, k, v, tx)
    src = c.tsmeta.get("source_name")
    if src and "$" not in src and "\n" not in src:
        need(src in tx, "%s: source name %r is not in the table of parameters: %s", msg, src, tx)
    if src and "$" in src:
        need(src in [t.replace("\\$", "$") for t in tx], "%s: source name %r is not in the table of parameters: %s", msg, src, tx)
    if c.tsmeta.get("mjd") is not None:
        need(any(abs(x - c.tsmeta["mjd"]) <= 1e-6 for x in nums), "%s: MJD is not in the table of parameters: %s", msg, tx)
    co = c.tsmeta.get("skycoord")
    if co is not None:
        found = [False, False]
        for t in tx:
            f = t.split(":")
            if len(f) == 3:
                try:
                    v = [abs(float(x)) for x in f]
                except ValueError:
                    continue
                val = v[0] + v[1] / 60 + v[2] / 3600
                s = -1 if f[0].startswith("-") else 1
                found[0] = found[0] or abs(s * val * 15 - co.ra.deg) < 2e-4
                found[1] = found[1] or abs(s * val - co.dec.deg) < 1e-5
        need(all(found), "%s: the position %s is not in the table of parameters: %s", msg, co.to_string("hmsdms"), tx)


def check_plot(c, msg, ctx, size=(6, 2), dpi=30, dig=False):
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    before = fx.canon(c)
    open_ = plt.get_fignums()
    path = os.path.join(work(), "plot.png")
    if os.path.exists(path):
        os.unlink(path)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            c.savefig(path, figsize=size, dpi=dpi)
        except Exception as e:
            raise Violation(f"{msg}: saving the plot failed: {type(e).__name__}: {str(e)[:200]}")
        need(png_size(path) == (int(size[0] * dpi), int(size[1] * dpi)), "%s: image of size %s", msg, png_size(path))
        need(plt.get_fignums() == open_, "%s: figures left open: %s", msg, plt.get_fignums())
        need(fx.canon(c) == before, "%s: saving the plot modified the candidate", msg)
        if dig:
            fig = c.plot(figsize=size, dpi=dpi)
            try:
                inspect_fig(fig, c, msg)
            finally:
                plt.close(fig)
            need(fx.canon(c) == before, "%s: plotting modified the candidate", msg)
    ctx.ev(1)


TABLES = {"one": [(3.0, 20.0)], "same": [(3.0, 20.0), (3.0, 9.0)], "two": [(0.0, 8.0), (3.0, 20.0)], "many": [(float(d), 20.0 - abs(d - 3) / 10) for d in range(60, -1, -1)], "tiny": [(1e-5, 20.0), (2e-5, 8.0)], "large": [(3000.0, 20.0), (2999.5, 1e6)]}


def candidate(shape, table, meta, data="noise", neg=False):
    from riptide import Candidate
    turns, bins, s = shape
    tsamp = 1.0 / 64
    n = max(256, int(bins * turns * 1.5))
    x = dict(noise=None, zero=np.zeros(n), const=np.ones(n), huge=np.random.RandomState(1).normal(size=n) * 1e12)[data]
    ts = series(n, tsamp, meta=meta, data=x)
    pk = [pipe.peak(freq=turns / ts.length * (1 + 1e-9 * i), snr=sn, dm=d, width=2, ducy=0.1234) for i, (d, sn) in enumerate(TABLES[table])]
    pk.sort(key=lambda p: -p.snr)
    return Candidate.from_pipeline_output(ts, cluster(pk), bins, subints=s)


def ev_plot(case, ctx):
    from riptide import save_json, load_json
    import pickle
    meta = {k: (Ellipsis if v == "absent" else v) for k, v in case.get("meta", {}).items()}
    if meta.get("skycoord") == "south":
        from astropy.coordinates import SkyCoord
        meta["skycoord"] = SkyCoord(359.999, -0.0123, unit="deg", frame="icrs")
    c = candidate(case["shape"], case["table"], meta, case.get("data", "noise"))
    msg = f"candidate {case}"
    check_plot(c, msg, ctx, size=tuple(case.get("size", (6, 2))), dpi=case.get("dpi", 30), dig=True)
    if case.get("reload"):
        p = os.path.join(work(), "c.json")
        save_json(p, c)
        d = load_json(p)
        need(fx.canon(d.params) == fx.canon(c.params), "%s: reloaded parameters %s", msg, d.params)
        check_plot(d, msg + " reloaded from JSON", ctx, dig=True)
        check_plot(pickle.loads(pickle.dumps(c)), msg + " pickled", ctx)
    ctx.outcome(repr(case))


def ev_run(case, ctx):
    from riptide.pipeline.pipeline import Pipeline
    import matplotlib
    matplotlib.use("Agg", force=True)
    logging.disable(logging.CRITICAL)
    d = pipe.fresh(os.path.join(work(), "run"))
    n, tsamp = 400, 1.0 / 64
    files = []
    for i, dm in enumerate((0.0, 5.0, 10.0)):
        x = np.random.RandomState(i).normal(size=n)
        files.append(fx.write_presto(d, f"f{i}", x, tsamp, dm) if case["fmt"] == "presto" else fx.write_sigproc(d, f"f{i}", x, tsamp, dm, **case["kw"]))
    T = n * tsamp
    peaks = {dm: [pipe.peak(period=p, snr=s - abs(dm - 5.0) / 5, dm=dm) for p, s in case["peaks"]] for dm in (0.0, 5.0, 10.0)}
    conf = pipe.make_conf(ranges=[pipe.make_range(pmin=0.5, pmax=T, cbins=case["bins"], subints=case["subints"])], fmt=case["fmt"], plot=True, processes=2,
                          band=(None, None, None) if case["fmt"] == "presto" else (1200.0, 1500.0, 64), harm=dict(denom_max=1, phase_distance_max=1e-9, dm_distance_max=1e-9, snr_distance_max=1e-9))
    out = pipe.fresh(os.path.join(d, "out"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with pipe.injected(peaks):
            try:
                Pipeline(conf).process(files, out)
            except Exception as e:
                raise Violation(f"run {case}: {type(e).__name__}: {str(e)[:200]}")
    names = sorted(os.listdir(out))
    k = len(case["peaks"])
    want = sorted([f"candidate_{i:04d}.{e}" for i in range(k) for e in ("json", "png")])
    got = [x for x in names if x.startswith("candidate_")]
    need(got == want, "run %s: files %s instead of %s", case, got, want)
    cands = pipe.load_cands(out)
    order = sorted(case["peaks"], key=lambda t: -t[1])
    for (name, c), (p, s) in zip(sorted(cands.items()), order):
        need(png_size(os.path.join(out, name[:-5] + ".png")) is not None, "run %s: %s.png is no image", case, name[:-5])
        m = full_periods(T, 1.0 / c.params["freq"])
        rows = m if case["subints"] is None or case["subints"] > m else case["subints"]
        need(abs(c.params["period"] - p) < 1e-9 and np.atleast_2d(c.subints).shape == (rows, case["bins"]), "run %s: %s: period %s, shape %s instead of %s", case, name, c.params["period"], c.subints.shape, (rows, case["bins"]))
        ctx.ev(1)
    ctx.outcome(repr(case))


def spaces(tier):
    deep = tier == "thorough"
    turns = [1.0, 1.0005, 1.5, 1.999, 2.0, 2.5, 3.0, 4.0, 6.25, 7.0, 10.0, 17.3] + ([5.0, 8.0, 9.99, 33.0, 64.0] if deep else [])
    build = [dict(n=n, tsamp=t, turns=turns[i:i + 4], bins=b, order=o) for n in ([256, 1000, 997] + ([4096, 333] if deep else [])) for t in (1.0 / 64, 1e-3, 0.1) for i in range(0, len(turns), 4)
             for b, o in (([4, 8, 9], [0, 1, 2]), ([1, 2, 16, 30], [2, 1, 0]), ([3, 5, 64], [1, 0, 2]))]
    g1 = [(d, s) for d in (0.0, 5.0, 2.5, -1.0) for s in (8.0, 9.5, 7.25)]
    curves = [dict(grid=g1, size=k, head=[]) for k in (1, 2)] + [dict(grid=g1, size=3, head=[g]) for g in g1] + [dict(grid=g1, size=4, head=[g, h]) for g in g1 for h in g1]
    if deep:
        g2 = [(d, s) for d in (0.0, 5.0, 1.0) for s in (8.0, 9.5, 7.25)]
        curves += [dict(grid=g2, size=5, head=[g, h]) for g in g2 for h in g2]
    # trial DMs are exact keys of the curve however close they are, and whatever their size
    for ds in ((1.001, 1.002, 1.0), (10.0, 10.0 + 1e-9, 10.01), (0.0, 1e-6, 1e-3), (3000.25, 3000.2500001, 2999.999)):
        g = [(d, s) for d in ds for s in (8.0, 9.5, 7.25)]
        curves += [dict(grid=g, size=2, head=[]), dict(grid=g, size=3, head=[])] + ([dict(grid=g, size=4, head=[]) ] if deep else [])
    plots = []
    shapes = [(3.3, 16, None), (3.3, 16, 1), (3.3, 16, 2), (3.3, 16, 50), (1.0, 8, None), (1.2, 8, 4), (40.0, 2, None), (40.0, 3, 7), (5.0, 1, 2), (5.0, 1, 1), (2.5, 65, 2)] + ([(300.0, 4, None), (2.0, 500, None)] if deep else [])
    for s, t in itertools.product(shapes, TABLES):
        plots.append(dict(shape=s, table=t, reload=(t == "two")))
    for d in ("zero", "const", "huge"):
        for s in shapes[:6]:
            plots.append(dict(shape=s, table="two", data=d))
    keys = ["source_name", "mjd", "skycoord"]
    for k in range(1, 4):
        for sub in itertools.combinations(keys, k):
            for how in ("absent", None):
                plots.append(dict(shape=shapes[2], table="two", meta={x: how for x in sub}, reload=True))
    for name in ("", "a b", "$", "$x$", "A$^$B", "a_b^c\\{%", "\\frac", "J1234-5678", "x" * 200, "Überraschung", "l1\nl2", "<&>", "\\$", "$$", "{}", "%s"):
        plots.append(dict(shape=shapes[2], table="two", meta=dict(source_name=name), reload=True))
    for m in (0.0, 1.0, 15000.0, 59000.123456, 100000.0):
        plots.append(dict(shape=shapes[2], table="two", meta=dict(mjd=m)))
    plots.append(dict(shape=shapes[2], table="two", meta=dict(skycoord="south"), reload=True))
    for size, dpi in (((18, 4), 80), ((4, 4), 50), ((10, 3), 20)):
        plots.append(dict(shape=shapes[2], table="many", size=size, dpi=dpi))
    runs = []
    sets = [[(2.0, 20.0)], [(2.0, 20.0), (6.0, 15.0), (0.9, 30.0)]]
    for fmt, kw in [("presto", {})] + [("sigproc", k) for k in ({}, dict(tstart=None), dict(source_name=None), dict(tstart=None, source_name=None), dict(source_name="A$^$B"))]:
        for bins, sub in ((16, None), (16, 1), (16, 4), (1, 2)) if fmt == "presto" or deep else ((16, 3),):
            runs.append(dict(fmt=fmt, kw=kw, bins=bins, subints=sub, peaks=sets[1] if sub != 1 or deep else sets[0]))
    return [Space("build", build, ev_build, note="construction from a time series and a cluster"),
            Space("dmcurve", curves, ev_dmcurve, note="all small peak tables"),
            Space("plot", plots, ev_plot, note="plots of every shape, table and metadata", batch=1),
            Space("run", runs, ev_run, note="complete runs with plots", batch=1)]
