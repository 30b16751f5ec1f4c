"""C19: consistency of the pipeline's products."""
import contextlib, itertools, math, os
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C19"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of detected peak sets, filter settings and failing candidate builds, executed on the real pipeline and compared with an independent model of the products"
RULE = ("complete pipeline runs on injected peaks: all peak sets of up to 3 (thorough 4) peaks of a (period, DM, S/N) grid; all combinations of filter values (limits on, between and beyond the values present); "
        "range boundaries; all subsets of candidate builds failing, both by injected exceptions and by naturally impossible folds; every row of every table and every candidate file compared with an independent model")
ASSUMPTIONS = ["S/N of distinct clusters differ (ties are covered by C20)", "peaks whose frequencies are exactly one clustering radius apart are not generated"]

DMS = [0.0, 60.0, 300.0]
NS = [800, 900, 1100]
TS = 0.005
RAD = 0.2
TMED = 900 * TS
_dir = None
_series = {}


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c19-")
    for dm, n in zip(DMS, NS):
        fx.write_presto(_dir, f"d{int(dm)}", fx.pulse_series(n, 80.0, 8, 1.5, seed=int(dm) + 1) * 3 + 50 + 0.01 * np.arange(n), TS, dm, fbot="1200.0", nchan="16", cbw="10.0", bandwidth="160")


def files():
    return [os.path.join(_dir, f"d{int(d)}.inf") for d in DMS]


RANGES = [("a", 0.1, 0.4, 10, 4), ("b", 0.4, 0.9, 16, 3), ("c", 0.9, 2.0, 25, None)]


def conf_ranges():
    return [pipe.make_range(pmin=a, pmax=b, bmin=10, bmax=12, cbins=bins, subints=sub, name=n) for n, a, b, bins, sub in RANGES]


def prepared(dm, dered):
    """The dereddened, normalised series of a DM trial."""
    from riptide import TimeSeries
    key = (dm, dered)
    if key not in _series:
        ts = TimeSeries.from_presto_inf(os.path.join(_dir, f"d{int(dm)}.inf"))
        _series[key] = ts.deredden(dered[0], minpts=dered[1]).normalise()
    return _series[key]


PK = ("period", "freq", "dm", "width", "ducy", "snr")


def check_run(peaks, conf, outdir, msg, ctx, failing=()):
    """Compares the files in outdir with the model for these injected peaks."""
    names = sorted(os.listdir(outdir))
    if not peaks:
        need(not names, "%s: no peaks, but files %s", msg, names)
        return []
    rows = pipe.read_csv(os.path.join(outdir, "peaks.csv"))
    need(len(rows) == len(peaks), "%s: %s rows in the peak table, %s peaks", msg, len(rows), len(peaks))
    got = sorted(tuple(float(r[k]) for k in PK) for r in rows)
    exp = sorted(tuple(float(getattr(p, k)) for k in PK) for p in peaks)
    bad = [(g, e) for g, e in zip(got, exp) if any(abs(x - y) > 1e-6 for x, y in zip(g, e))]
    need(not bad, "%s: peak table holds %s, the peak is %s", msg, *(bad[0] if bad else ((), ())))
    per = [float(r["period"]) for r in rows]
    need(all(a <= b for a, b in zip(per, per[1:])), "%s: peak table not by increasing period: %s", msg, per)
    # clusters
    o = sorted(peaks, key=lambda p: p.freq)
    groups = []
    for p in o:
        if groups and p.freq - groups[-1][-1].freq <= conf["clustering"]["radius"] / TMED:
            groups[-1].append(p)
        else:
            groups.append([p])
    C = sorted(((max(g, key=lambda p: p.snr), g) for g in groups), key=lambda c: -c[0].snr)
    rows = pipe.read_csv(os.path.join(outdir, "clusters.csv"))
    need(len(rows) == len(C), "%s: %s rows in the cluster table, expected %s clusters", msg, len(rows), len(C))
    harmonic = []
    for k, (r, (c, g)) in enumerate(zip(rows, C)):
        need(all(abs(float(r[a]) - getattr(c, a)) < 1e-6 for a in ("period", "freq", "dm", "ducy", "snr")), "%s: row %s of the cluster table is %s, expected %s", msg, k, r, c)
        need(int(float(r["npeaks"])) == len(g) and int(float(r["rank"])) == k, "%s: cluster %s has %s peaks and rank %s, expected %s and %s", msg, k, r["npeaks"], r["rank"], len(g), k)
        harmonic.append(int(float(r["fundamental_rank"])) != k)
    # candidates
    f = conf["candidate_filters"]
    keep = []
    for k, (c, g) in enumerate(C):
        if f["dm_min"] is not None and c.dm < f["dm_min"]:
            continue
        if f["snr_min"] is not None and c.snr < f["snr_min"]:
            continue
        if f["remove_harmonics"] and harmonic[k]:
            continue
        keep.append((c, g))
    if f["max_number"]:
        keep = keep[:f["max_number"]]
    keep = [(c, g) for c, g in keep if c.period not in failing]
    want = ["clusters.csv", "peaks.csv"] + (["candidates.csv"] if keep else []) + [f"candidate_{i:04d}.json" for i in range(len(keep))]
    if conf["plot_candidates"]:
        want += [f"candidate_{i:04d}.png" for i in range(len(keep))]
    need(names == sorted(want), "%s: files %s, expected %s (candidates of periods %s)", msg, names, sorted(want), [c.period for c, _ in keep])
    if keep:
        rows = pipe.read_csv(os.path.join(outdir, "candidates.csv"))
        need(len(rows) == len(keep) and all(all(abs(float(r[a]) - float(getattr(c, a))) < 1e-6 for a in PK) for r, (c, _) in zip(rows, keep)), "%s: candidate table %s, expected %s", msg, rows, [c for c, _ in keep])
    cands = pipe.load_cands(outdir)
    for i, (c, g) in enumerate(keep):
        cand = cands[f"candidate_{i:04d}.json"]
        if conf["plot_candidates"]:
            png = open(os.path.join(outdir, f"candidate_{i:04d}.png"), "rb").read()
            need(png[:4] == b"\x89PNG" or png == repr(float(c.period)).encode(), "%s: the plot file of candidate %s (period %s) holds %s", msg, i, c.period, png[:60])
        need(all(cand.params[a] == getattr(c, a) for a in PK) and set(cand.params) == set(PK), "%s: candidate %s has parameters %s, expected %s", msg, i, cand.params, c)
        df = cand.peaks
        got = sorted(tuple(float(df[a].values[j]) for a in PK) for j in range(len(df)))
        need(got == sorted(tuple(float(getattr(p, a)) for a in PK) for p in g), "%s: candidate %s lists peaks %s, its cluster has %s", msg, i, got, g)
        need(cand.tsmeta["dm"] == c.dm and os.path.realpath(cand.tsmeta["fname"]) == os.path.realpath(os.path.join(_dir, f"d{int(c.dm)}.inf")), "%s: candidate %s of DM %s has the metadata of %s", msg, i, c.dm, cand.tsmeta["fname"])
        ts = prepared(c.dm, (conf["dereddening"]["rmed_width"], conf["dereddening"]["rmed_minpts"]))
        rg = next((r for r in RANGES if r[1] <= c.period < r[2]), RANGES[-1])
        sub = rg[4]
        if sub is not None and sub * c.period >= ts.length:
            sub = None
        ref = ts.fold(c.period, rg[3], subints=sub)
        need(cand.subints.shape == ref.shape and np.allclose(cand.subints, ref, rtol=1e-5, atol=1e-5), "%s: candidate %s (period %s, range %s) differs from the fold of its DM trial: shape %s, expected %s", msg, i, c.period, rg, cand.subints.shape, ref.shape)
    return keep


def run(peaks, conf, msg, ctx, failing=(), mode=None):
    from riptide.pipeline.pipeline import Pipeline
    from riptide import TimeSeries, Candidate
    out = pipe.fresh(os.path.join(_dir, f"o{os.getpid()}"))
    bydm = {d: [p for p in peaks if p.dm == d] for d in DMS}
    calls = []
    pl = Pipeline(conf)
    with pipe.injected(bydm, calls):
        if mode is None:
            pl.process(files(), out)
        else:
            if mode[0] == "fold":
                from riptide import folding

                def failing_fold(orig):
                    def fold(*a, **k):
                        period = k["period"] if "period" in k else a[1]
                        if period in failing:
                            raise mode[1]("injected failure")
                        return orig(*a, **k)
                    return fold
                patch = pipe.patched((TimeSeries, "fold", failing_fold(TimeSeries.fold)), *[(o, a, failing_fold(folding.fold)) for o, a in pipe.bindings(folding.fold)])
            else:
                orig = Candidate.from_pipeline_output.__func__

                def fpo(cls, *a, **k):
                    cl = next(x for x in (*a, *k.values()) if hasattr(x, "centre"))
                    if cl.centre.period in failing:
                        raise mode[1]("injected failure")
                    return orig(cls, *a, **k)
                patch = pipe.patched((Candidate, "from_pipeline_output", classmethod(fpo)))
            with patch:
                pl.process(files(), out)
    need(sorted(calls) == sorted(map(os.path.realpath, files())), "%s: files searched: %s", msg, calls)
    return check_run(peaks, conf, out, msg, ctx, failing)


SNRS = [30.0, 26.5, 21.25, 17.0, 12.5, 9.75]
# frequencies: 2.0, 2.03 and 2.06 chain (radius 0.0444), the others stand alone
FREQS = [2.0, 2.03, 2.06, 2.5, 1.0, 5.0, 0.8]


def mk(spec):
    """[(freq index, dm index)], S/N by position"""
    return [pipe.peak(freq=FREQS[f], snr=SNRS[k] + 0.01 * f, dm=DMS[d], width=2 + k, ducy=(2 + k) / 11.0) for k, (f, d) in enumerate(spec)]


def ev_sets(case, ctx):
    for spec in case["specs"]:
        peaks = mk(spec)
        for perm in ([0] if len(peaks) < 2 else [0, 1]):
            pk = peaks if not perm else peaks[::-1]
            conf = pipe.make_conf(ranges=conf_ranges(), radius=RAD)
            keep = run(pk, conf, f"peaks (freq, DM, S/N) {[(p.freq, p.dm, p.snr) for p in pk]}", ctx)
            ctx.ev(1, nontrivial=bool(keep))
            ctx.outcome(tuple((c.period, len(g)) for c, g in keep))


BIG = [(0, 0), (3, 1), (4, 1), (5, 2), (6, 0), (1, 1)]


def ev_filters(case, ctx):
    peaks = mk(BIG)
    for dm_min in case["dm_min"]:
        for snr_min in (None, 0.0, 9.0, 17.0 + 0.05, 17.0501, 21.0, 40.0):
            for rh in (None, False, True):
                for nmax in (None, 1, 2, 4, 10):
                    f = dict(dm_min=dm_min, snr_min=snr_min, remove_harmonics=rh, max_number=nmax)
                    conf = pipe.make_conf(ranges=conf_ranges(), radius=RAD, filters=f, harm=dict(denom_max=100, phase_distance_max=4.0, dm_distance_max=30.0, snr_distance_max=8.0))
                    keep = run(peaks, conf, f"filters {f}", ctx)
                    ctx.ev(1, nontrivial=0 < len(keep) < 5)
                    ctx.outcome((tuple(c.period for c, g in keep)))


def ev_plots(case, ctx):
    """Plots asked for or not; 'stub': the plot files hold the period of the candidate that wrote them."""
    from riptide import Candidate
    peaks = mk(BIG)[:case["n"]]
    if case["n"] > len(BIG):
        peaks = [pipe.peak(freq=0.55 + 0.09 * i, snr=6.0 + 40.0 * ((i * 7919) % 10007) / 10007, dm=DMS[i % 3]) for i in range(case["n"])]

    def stub(self, fname, *a, **k):
        with open(fname, "w") as f:
            f.write(repr(float(self.params["period"])))
    for f in (dict(), dict(dm_min=60.0), dict(max_number=2), dict(snr_min=1000.0)):
        for plot in (True, False):
            conf = pipe.make_conf(ranges=conf_ranges(), radius=RAD, filters=f, plot=plot)
            with (pipe.patched((Candidate, "savefig", stub)) if case["stub"] else contextlib.nullcontext()):
                keep = run(peaks, conf, f"{case['n']} peaks, filters {f}, plots {plot}", ctx)
            ctx.ev(1, nontrivial=bool(keep))
            ctx.outcome((case["n"], repr(f), plot))


def ev_many(case, ctx):
    """Many clusters, of many peaks each."""
    n, per, step = case["n"], case["per"], case["step"]
    snrs = [6.0 + 40.0 * ((i * 7919) % 10007) / 10007 for i in range(n * per)]
    peaks = []
    for i in range(n):
        f = 0.55 + step * i
        for j in range(per):
            k = i * per + j
            peaks.append(pipe.peak(freq=f + 0.004 * j, snr=snrs[k], dm=DMS[(i * 3 + j * j) % 3], width=1 + k % 5, ducy=(1 + k % 5) / 11.0))
    peaks = [peaks[(i * case["shuffle"]) % len(peaks)] for i in range(len(peaks))] if math.gcd(case["shuffle"], len(peaks)) == 1 else peaks
    for f in case["filters"]:
        conf = pipe.make_conf(ranges=conf_ranges(), radius=RAD, filters=f, harm=dict(denom_max=5, phase_distance_max=0.5, dm_distance_max=3.0, snr_distance_max=1.0))
        keep = run(peaks, conf, f"{n} clusters of {per} peaks, filters {f}", ctx)
        ctx.ev(1, nontrivial=bool(keep))
        ctx.outcome((n, per, repr(f)))


def ev_bounds(case, ctx):
    """Periods at and around the boundaries of the search ranges, and the last range's end."""
    for P in case["periods"]:
        for dm in DMS:
            p = pipe.peak(freq=1.0 / P, snr=20.0, dm=dm)
            conf = pipe.make_conf(ranges=conf_ranges(), radius=RAD, dered=case["dered"])
            run([p], conf, f"one peak of period {p.period!r} in DM {dm}", ctx)
            ctx.ev(1)
            ctx.outcome(P)


def ev_faults(case, ctx):
    """Every subset of the candidate builds fails."""
    n = case["n"]
    spec = [(0, 0), (3, 1), (4, 1), (5, 2), (6, 0)][:n]
    peaks = mk(spec)
    mode = (case["mode"], {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "MemoryError": MemoryError, "IndexError": IndexError}[case["exc"]])
    for r in range(0, n + 1):
        for sub in itertools.combinations(range(n), r):
            failing = tuple(peaks[i].period for i in sub)
            for nmax in (None, n - 1 if n > 1 else 1):
                conf = pipe.make_conf(ranges=conf_ranges(), radius=RAD, filters=dict(max_number=nmax))
                keep = run(peaks, conf, f"candidate builds {sub} of {n} failing with {case['exc']}, max_number {nmax}", ctx, failing, mode)
                ctx.ev(1, nontrivial=r > 0)
                ctx.outcome((n, sub, nmax))


def ev_natural(case, ctx):
    """Folds that are impossible (period longer than the data) among possible ones."""
    spec = case["spec"]
    peaks, failing = [], []
    for k, (f, d) in enumerate(spec):
        fr = [2.0, 2.5, 1.0, 0.1, 0.12][f]
        p = pipe.peak(freq=fr, snr=SNRS[k], dm=DMS[d])
        peaks.append(p)
        if p.period > NS[d] * TS:
            failing.append(p.period)
    conf = pipe.make_conf(ranges=conf_ranges(), radius=0.04)
    run(peaks, conf, f"peaks {[(p.freq, p.dm, p.snr) for p in peaks]}", ctx, tuple(failing))
    ctx.ev(1, nontrivial=bool(failing))
    ctx.outcome(tuple(spec))


def spaces(tier):
    deep = tier == "thorough"
    cells = [(f, d) for f in range(len(FREQS)) for d in range(3)]
    specs = [()]
    specs += [(c,) for c in cells]
    for r in (2, 3) + ((4,) if deep else ()):
        cs = cells if r == 2 else [(f, d) for f in (0, 1, 2, 3, 4, 6) for d in ((0, 1) if r == 3 and not deep else (0, 2))][: 12 if r < 4 else 9]
        for sub in itertools.permutations(cs, r) if r == 2 else itertools.combinations(cs, r):
            specs.append(sub)
            if r > 2:
                specs.append(sub[::-1])
    sets = [dict(specs=specs[k:k + 8]) for k in range(0, len(specs), 8)]
    filt = [dict(dm_min=[d]) for d in (None, 0.0, 1.0, 60.0, 60.001, 299.0, 300.0, 1000.0)]
    per = [0.1, 0.2, 0.3999999, 0.4, 0.4000001, 0.5, 0.8999999, 0.9, 0.9000001, 1.3, 1.9999, 2.0, 2.01, 2.5]
    exact = [1.0 / f for f in (2.5, 10.0, 1.25, 0.5, 4.0)]
    bounds = [dict(periods=[P], dered=d) for P in per + exact for d in ((0.5, 11), (1.0, 7), (0.3, 101))]
    faults = [dict(n=n, mode=m, exc=e) for n in ((1, 2, 3, 4) + ((5,) if deep else ())) for m in ("fold", "build") for e in ("ValueError", "RuntimeError", "KeyError", "MemoryError", "IndexError")]
    nat = [dict(spec=list(zip(fs, ds))) for n in (1, 2, 3, 4) for fs in itertools.permutations(range(5), n) for ds in ([0, 0, 0, 0], [2, 1, 0, 1])][:: 1 if deep else 2]
    return [Space("sets", sets, ev_sets, "all small peak sets"), Space("filters", filt, ev_filters, "all filter combinations"), Space("bounds", bounds, ev_bounds, "boundaries of the search ranges"),
            Space("many", [dict(n=n, per=p, step=st, shuffle=sh, filters=fl) for n, p, st in ((12, 1, 0.5), (100, 1, 0.09), (130, 3, 0.07), (60, 20, 0.15), (8, 100, 1.0)) for sh in (1, 37)
                           for fl in ([{}], [dict(snr_min=20.0)], [dict(max_number=11), dict(max_number=50, remove_harmonics=True), dict(dm_min=60.0)])], ev_many, "many clusters and peaks", batch=1),
            Space("plots", [dict(n=n, stub=st) for n, st in ((0, True), (1, True), (2, True), (4, True), (6, True), (13, True), (100, True), (1, False), (3, False))], ev_plots, "plots asked for or not", batch=1),
            Space("faults", faults, ev_faults, "all subsets of failing candidate builds"), Space("natural", nat, ev_natural, "impossible folds")]
