"""C29: periodogram object: frequencies, observation time, stored forms and plot."""
import itertools, os, pickle, warnings
import numpy as np
from .. import fixtures as fx
from ..engine import Space, Violation, need

PROP = "C29"
LEVEL = "exploration"
RULE = ("all S/N tables over a small alphabet with up to 4 trial periods x 3 widths, each with every width selection: the curve drawn on the current figure, its range and title; larger tables; "
        "searches of generated series: frequencies, observation time and the dictionary, JSON and pickle forms")
ASSUMPTIONS = ["the plot is inspected through matplotlib's own line and axis objects"]

_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c29-")
    os.environ["MPLBACKEND"] = "Agg"


def plt_():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    return plt


def make(periods, snrs, widths, meta=None):
    from riptide import Periodogram, Metadata
    periods = np.asarray(periods, dtype=float)
    snrs = np.asarray(snrs, dtype=np.float32).reshape(len(periods), len(widths))
    return Periodogram(np.asarray(widths), periods, np.full(len(periods), 16, dtype=np.uint32), snrs, metadata=Metadata(meta) if meta is not None else None)


def check_plot(pg, iw, msg, display=False):
    plt = plt_()
    before = fx.canon(pg)
    base = plt.get_fignums()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if display:
            pg.display(iwidth=iw, figsize=(4, 2), dpi=40)
            new = [n for n in plt.get_fignums() if n not in base]
            need(len(new) == 1, "%s: display() opened %d figures", msg, len(new))
            fig = plt.figure(new[0])
            need(tuple(fig.get_size_inches()) == (4, 2) and fig.get_dpi() == 40, "%s: figure of size %s at %s dots per inch", msg, fig.get_size_inches(), fig.get_dpi())
        else:
            fig = plt.figure(figsize=(4, 2), dpi=40)
            k = plt.get_fignums()
            if iw is None:
                pg.plot()
            else:
                pg.plot(iwidth=iw)
            need(plt.get_fignums() == k and plt.gcf() is fig, "%s: plot() opened, closed or changed figures", msg)
    try:
        want = pg.snrs.max(axis=1) if iw is None else pg.snrs[:, iw]
        lines = [l for ax in fig.axes for l in ax.lines]
        ok = [l for l in lines if np.array_equal(np.asarray(l.get_xdata(), dtype=float), pg.periods) and np.array_equal(np.asarray(l.get_ydata(), dtype=float), want)]
        need(len(lines) == 1 and ok, "%s: the curve drawn is %s, expected S/N %s at periods %s", msg, [(list(l.get_xdata())[:6], list(l.get_ydata())[:6]) for l in lines], want[:6], pg.periods[:6])
        ax = ok[0].axes
        lo, hi = sorted(ax.get_xlim())
        need(lo <= pg.periods.min() and hi >= pg.periods.max(), "%s: the period axis %s leaves out trial periods from %s to %s", msg, (lo, hi), pg.periods.min(), pg.periods.max())
        lo, hi = sorted(ax.get_ylim())
        need(lo <= want.min() and hi >= want.max(), "%s: the S/N axis %s leaves out values from %s to %s", msg, (lo, hi), want.min(), want.max())
        if iw is not None:
            words = ax.get_title().replace("=", " ").split()
            need(str(int(pg.widths[iw])) in words, "%s: the title %r does not name the width %d", msg, ax.get_title(), pg.widths[iw])
        need(fx.canon(pg) == before, "%s: plotting modified the periodogram", msg)
    finally:
        plt.close(fig)


def ev_tables(case, ctx):
    periods = [1.0, 1.5, 2.25, 2.5][:case["n"]]
    widths = [1, 2, 5][:case["w"]]
    free = case["n"] * case["w"] - len(case["head"])
    for rest in itertools.product(case["alpha"], repeat=free):
        vals = list(case["head"]) + list(rest)
        pg = make(periods, vals, widths)
        for iw in [None] + list(range(len(widths))):
            check_plot(pg, iw, f"S/N table {pg.snrs.tolist()}, width index {iw}")
            ctx.ev(1, nontrivial=len(set(vals)) > 1)
        ctx.outcome(tuple(vals))


def ev_large(case, ctx):
    n, w = case["n"], case["w"]
    rs = np.random.RandomState(n)
    periods = np.cumsum(rs.uniform(1e-6, 1e-3, size=n)) + case["p0"]
    widths = np.cumsum(rs.randint(1, 5, size=w))
    pg = make(periods, rs.normal(size=(n, w)) * case.get("scale", 1.0), widths)
    for iw in [None] + sorted({0, w // 2, w - 1}):
        check_plot(pg, iw, f"{n} periods from {case['p0']}, {w} widths, width index {iw}")
        check_plot(pg, iw, f"display of {n} periods from {case['p0']}, {w} widths, width index {iw}", display=True)
        ctx.ev(2)
    ctx.outcome((n, w, case["p0"]))


def same(a, b, msg):
    for k in ("widths", "periods", "foldbins", "snrs"):
        x, y = np.asarray(getattr(a, k)), np.asarray(getattr(b, k))
        need(x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes(), "%s: %s changed from %s to %s", msg, k, x, y)
    need(fx.canon(dict(a.metadata)) == fx.canon(dict(b.metadata)), "%s: metadata changed from %s to %s", msg, a.metadata, b.metadata)
    need(a.freqs.tobytes() == b.freqs.tobytes() and a.tobs == b.tobs, "%s: frequencies or observation time changed", msg)


def ev_search(case, ctx):
    from riptide import TimeSeries, ffa_search, Periodogram, save_json, load_json, Metadata
    n, tsamp, b0, b1 = case["n"], case["tsamp"], case["b0"], case["b1"]
    pmin, pmax = tsamp * b0 * case["f"], tsamp * b0 * case["f"] * case["span"]
    md = Metadata(case["meta"]) if case["meta"] is not None else None
    x = np.random.RandomState(n).normal(size=n).astype(np.float32)
    ts = TimeSeries(x, tsamp, metadata=md)
    msg = f"search of {n} samples of {tsamp} s, periods {pmin} to {pmax}, bins {b0} to {b1}"
    done, pg = ffa_search(ts, period_min=pmin, period_max=pmax, bins_min=b0, bins_max=b1, fpmin=1, deredden=case["dered"], rmed_width=tsamp * 21, rmed_minpts=5)
    need(len(pg.periods) > 1, "%s: no trial periods", msg)
    fr = pg.freqs
    need(isinstance(fr, np.ndarray) and fr.shape == pg.periods.shape, "%s: frequencies %r", msg, fr)
    need(bool((np.abs(fr * pg.periods - 1) <= 4e-16).all()), "%s: the frequencies are not the reciprocals of the periods", msg)
    need(bool((np.diff(fr) < 0).all()), "%s: the frequencies do not decrease", msg)
    need(pg.tobs == ts.length and pg.tobs == pg.metadata["tobs"] and abs(pg.tobs / (n * tsamp) - 1) < 1e-12, "%s: observation time %r", msg, pg.tobs)
    for k, v in dict(ts.metadata).items():
        need(k in pg.metadata and fx.canon(pg.metadata[k]) == fx.canon(v), "%s: metadata %r is %r instead of %r", msg, k, pg.metadata.get(k), v)
    before = fx.canon(pg)
    same(pg, Periodogram.from_dict(pg.to_dict()), msg + ": through a dictionary")
    same(pg, pickle.loads(pickle.dumps(pg)), msg + ": through pickle")
    path = os.path.join(_dir, "p%d.json" % os.getpid())
    save_json(path, pg)
    same(pg, load_json(path), msg + ": through JSON")
    need(fx.canon(pg) == before, "%s: storing modified the periodogram", msg)
    # what is drawn for a search result, before and after storing
    for iw in [None] + list(range(len(pg.widths))):
        check_plot(pg, iw, f"{msg}, width index {iw}")
        check_plot(load_json(path), iw, f"{msg}, reloaded, width index {iw}")
    need(fx.canon(pg) == before and fx.canon(ts.data) == fx.canon(x), "%s: the periodogram or the series was modified", msg)
    ctx.ev(4 + 2 * len(pg.widths))
    ctx.outcome((n, tsamp, b0, b1, case["f"], case["span"]))


def spaces(tier):
    deep = tier == "thorough"
    tables = []
    A3 = [-1.0, 0.0, 2.5]
    for n, w in ((1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (2, 2)):
        tables += [dict(n=n, w=w, alpha=A3, head=[a]) for a in A3]
    for n, w in ((3, 2), (2, 3), (4, 1)) + (((3, 3), (4, 2)) if deep else ()):
        tables += [dict(n=n, w=w, alpha=[-1.0, 2.5], head=list(h)) for h in itertools.product([-1.0, 2.5], repeat=3)]
    large = [dict(n=n, w=w, p0=p0, scale=s) for n, w, p0, s in ((50, 4, 1e-3, 1.0), (1000, 8, 0.5, 10.0), (5000, 10, 100.0, 1e3), (2, 12, 1e3, 1e-6), (20000, 3, 1.0, 1.0), (300000, 2, 1.0, 1.0))]
    searches = []
    metas = [None, {}, dict(source_name="A", dm=3.5), dict(dm=0.0, mjd=59000.5, tobs=1.0, extra=[1, "x"])]
    for i, (n, tsamp, (b0, b1), f, span) in enumerate(itertools.product((200, 1001), (1.0, 1e-3), ((8, 8), (10, 13)), (1.0, 1.3), (1.2, 4.0))):
        searches.append(dict(n=n, tsamp=tsamp, b0=b0, b1=b1, f=f, span=span, meta=metas[i % 4], dered=i % 3 == 0))
    return [Space("tables", tables, ev_tables, "all small S/N tables", batch=1), Space("large", large, ev_large, "larger tables, shown", batch=1),
            Space("searches", searches, ev_search, "search results and their stored forms", batch=1)]
