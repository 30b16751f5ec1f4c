"""C32: a pipeline run does exactly what its configuration says."""
import copy, itertools, math, os
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need
from .c18 import relation

PROP = "C32"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of pipeline configurations (one and two settings away from several base configurations), each run for real and compared with the composition of the library functions it stands for"
RULE = ("complete real runs (search included) on small PRESTO and SIGPROC data sets with pulsars, harmonics and slow noise; every setting of the configuration takes each of a list of values (and every pair of settings; quick: an evenly spaced part of the pairs), in each base "
        "configuration and, for settings of a search range, in each range; the peak table is compared with direct calls (selection of DM trials, running-median subtraction, normalisation, search, peak detection with the settings of that range), "
        "the cluster table with a model of clustering, ranking and harmonic flagging under the configured limits, the candidates with a model of the filters and direct folds")
ASSUMPTIONS = ["the library functions themselves are decided by C01 to C18", "setting fpmin is a known finding of C06 and is not varied here"]

TS = 0.004
DMS = [0.0, 5.0, 13.0, 40.0, 75.0, 130.0]
NS = [2600, 2500, 2300, 2400, 2000, 2700]
PK = ("period", "freq", "dm", "width", "ducy", "snr")
_dir = None
SETS = {}
META = {}


def series(dm, n, seed):
    x = np.random.RandomState(seed).normal(size=n)
    t = np.arange(n) * TS
    for P, w, a, d in ((0.4571, 0.02, 2.6, 40.0), (1.173, 0.05, 2.2, 75.0), (0.1377, 0.012, 1.6, 13.0), (0.823, 0.1, 1.4, 0.0)):
        amp = a / (1.0 + abs(dm - d) / 40.0)
        x[((t / P - 0.3) % 1.0) < w / P] += amp
    return x + 1.5 * np.sin(2 * np.pi * t / 3.7) + 20.0 + 0.3 * t


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c32-")
    for s in ("presto", "sigproc"):
        d = os.path.join(_dir, s)
        os.makedirs(d)
        out = []
        for k, (dm, n) in enumerate(zip(DMS, NS)):
            x = series(dm, n, 40 + k)
            if s == "presto":
                out.append(fx.write_presto(d, f"f{k}", x, TS, dm, raj="18:02:05.0000", decj="-12:10:00.0000", fbot="1200.0", nchan="64", cbw="4.0", bandwidth="256"))
            else:
                out.append(fx.write_sigproc(d, f"f{k}", x, TS, dm, src_raj=180205.0, src_dej=-121000.0))
        SETS[s] = out
    import gc
    gc.collect()


def rng(name, pmin, pmax, bmin, bmax, smin, cbins, subints, fs=None, fp=None):
    return dict(name=name, ffa_search=dict(period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax, **(fs or {})), find_peaks=dict(smin=smin, **(fp or {})), candidates=dict(bins=cbins, subints=subints))


def base(name):
    """The base configurations: (data set, configuration)"""
    if name == "three":
        r = [rng("s", 0.1, 0.3, 16, 18, 6.8, 20, 8), rng("m", 0.3, 0.7, 32, 36, 6.0, 32, None, None, dict(segwidth=2.0, minseg=3, nstd=4.0)), rng("l", 0.7, 1.6, 40, 44, 6.2, 64, 4, None, dict(segwidth=1.0, minseg=3))]
        return "presto", pipe.make_conf(ranges=r, processes=2, dered=(1.2, 41), radius=0.3, harm=dict(denom_max=20, phase_distance_max=1.5, dm_distance_max=15.0, snr_distance_max=4.0))
    if name == "two":
        r = [rng("s", 0.13, 0.4, 20, 22, 6.5, 16, 4, dict(ducy_max=0.3, wtsp=1.4), dict(nstd=5.0)), rng("l", 0.4, 1.3, 32, 34, 6.5, 24, None, dict(wtsp=2.0), dict(clrad=0.4, segwidth=1.5, minseg=4))]
        return "sigproc", pipe.make_conf(ranges=r, processes=3, fmt="sigproc", band=(1200.0, 1456.0, 64), dmselect=(None, 100.0, None), dered=(0.9, 61), radius=0.2,
                                         harm=dict(denom_max=8, phase_distance_max=2.0, dm_distance_max=10.0, snr_distance_max=6.0), filters=dict(dm_min=1.0, snr_min=7.0, remove_harmonics=True, max_number=8))
    if name == "one":
        r = [rng("x", 0.25, 1.5, 24, 27, 6.5, 48, 6, None, dict(minseg=5, polydeg=1))]
        return "presto", pipe.make_conf(ranges=r, processes=1, dmselect=(5.0, None, None), dered=(2.0, 101), radius=0.6, filters=dict(remove_harmonics=False, max_number=30))
    raise HarnessError(name)


def settings(name):
    """[(path, value)]: values of each setting other than the base's"""
    fmt, c = base(name)
    S = []

    def add(path, *vals):
        cur = c
        for p in path:
            cur = cur.get(p) if isinstance(cur, dict) else cur[p]
        S.extend((path, v) for v in vals if v != cur or type(v) is not type(cur))
    add(("processes",), 1, 2, 4, 7)
    if fmt == "sigproc":
        add(("data", "fmin"), 300.0, 1000, 1440.0)
        add(("data", "fmax"), 1300.0, 3000.0)
        add(("data", "nchans"), 1, 4, 4096)
    else:
        add(("data", "fmin"), 300.0)
        add(("data", "fmax"), 3000.0)
        add(("data", "nchans"), 3)
    add(("dmselect", "min"), 0.0, 3.0, 13.0, 13.5)
    add(("dmselect", "max"), 5, 39.9, 75.0, 1000.0)
    add(("dmselect", "dmsinb_max"), 4.0, 7, 45.0)
    add(("dereddening", "rmed_width"), 0.5, 1, 3.3, 6.0)
    add(("dereddening", "rmed_minpts"), 11, 101, 251)
    for k, r in enumerate(c["ranges"]):
        f, p = r["ffa_search"], ("ranges", k)
        n = len(c["ranges"])
        if k == 0:
            add(p + ("ffa_search", "period_min"), f["period_min"] * 1.25, f["period_min"] * 0.9)
        else:
            add(p + ("boundary",), f["period_min"] * 1.1, f["period_min"] * 0.85)
            # narrower pulses than in the first range
            S.append((p + ("ffa_search", "bins"), (int(f["period_min"] / TS / 1.02), int(f["period_min"] / TS / 1.02) + 2)))
        if k == n - 1:
            add(p + ("ffa_search", "period_max"), f["period_max"] * 1.2, f["period_max"] * 0.7)
        add(p + ("ffa_search", "bins_min"), f["bins_min"] - 3, f["bins_min"] + 2)
        add(p + ("ffa_search", "bins_max"), f["bins_max"] + 5, f["bins_min"])
        add(p + ("ffa_search", "ducy_max"), 0.05, 0.2, 0.45)
        add(p + ("ffa_search", "wtsp"), 1.15, 1.5, 3)
        add(p + ("find_peaks", "smin"), 5.5, 8, 12.0)
        add(p + ("find_peaks", "segwidth"), 2.0, 20)
        add(p + ("find_peaks", "nstd"), 3, 6.0, 9.0)
        add(p + ("find_peaks", "minseg"), 1, 10, 10000)
        add(p + ("find_peaks", "polydeg"), 1, 2, 4)
        add(p + ("find_peaks", "clrad"), 0.02, 0.1, 2.5)
        S.append((p + ("find_peaks",), None))
        S.append((p + ("find_peaks",), {}))
        add(p + ("candidates", "bins"), 8, 13, 25)
        add(p + ("candidates", "subints"), 1, 3, 16, None)
        S.append((p + ("name",), "other"))
        if k:
            S.append((p + ("name",), c["ranges"][0]["name"]))
    add(("clustering", "radius"), 0.01, 0.1, 1, 5.0)
    add(("harmonic_flagging", "denom_max"), 1, 3, 100)
    add(("harmonic_flagging", "phase_distance_max"), 0.1, 1, 6.0)
    add(("harmonic_flagging", "dm_distance_max"), 0.05, 3, 100.0)
    add(("harmonic_flagging", "snr_distance_max"), 0.5, 3, 20.0)
    add(("candidate_filters", "dm_min"), None, 0.0, 13.0, 41.0, 1000)
    add(("candidate_filters", "snr_min"), None, 7.5, 10, 1000.0)
    add(("candidate_filters", "remove_harmonics"), None, False, True)
    add(("candidate_filters", "max_number"), None, 1, 3, 20)
    return S


def apply(c, changes):
    c = copy.deepcopy(c)
    for path, v in changes:
        if path[-1] == "boundary":
            k = path[1]
            if c["ranges"][k]["ffa_search"]["period_max"] <= v or c["ranges"][k - 1]["ffa_search"]["period_min"] >= v:
                return None
            c["ranges"][k]["ffa_search"]["period_min"] = v
            c["ranges"][k - 1]["ffa_search"]["period_max"] = v
            continue
        cur = c
        for p in path[:-1]:
            cur = cur[p]
        if cur is None:
            return None
        if path[-2:] == ("ffa_search", "bins"):
            cur["bins_min"], cur["bins_max"] = v
            continue
        cur[path[-1]] = copy.deepcopy(v)
    return c


def valid(c):
    """Whether this combination is one the pipeline accepts."""
    for r in c["ranges"]:
        f = r["ffa_search"]
        if f["bins_min"] * TS > f["period_min"] or f["bins_max"] < f["bins_min"] or f["period_max"] <= f["period_min"] or r["candidates"]["bins"] * TS > f["period_min"]:
            return False
    if c["data"]["format"] == "sigproc" and not c["data"]["fmin"] < c["data"]["fmax"]:
        return False
    lo, hi = c["dmselect"]["min"], c["dmselect"]["max"]
    cap = c["dmselect"]["dmsinb_max"]
    cap = math.inf if cap is None else cap / abs(math.sin(math.radians(glat())))
    return any((lo is None or d >= lo) and (hi is None or d <= hi) and d <= cap for d in DMS)


def glat():
    if "b" not in META:
        from astropy.coordinates import SkyCoord
        META["b"] = SkyCoord("18:02:05 -12:10:00", unit=("hourangle", "deg")).galactic.b.deg
    return META["b"]


_ts, _pk = {}, {}


def load(fmt, k, width, minpts):
    from riptide import TimeSeries
    key = (fmt, k, width, minpts)
    if key not in _ts:
        if len(_ts) > 60:
            _ts.clear()
        f = SETS[fmt][k]
        ts = TimeSeries.from_presto_inf(f) if fmt == "presto" else TimeSeries.from_sigproc(f)
        _ts[key] = ts.deredden(width, minpts=minpts).normalise()
    return _ts[key]


def selection(c):
    """Indices of the files searched."""
    from riptide.pipeline.dmiter import DMIterator
    d = c["dmselect"]
    wmin = min(r["ffa_search"]["period_min"] / r["ffa_search"]["bins_min"] for r in c["ranges"])
    fmt = c["data"]["format"]
    it = DMIterator(SETS[fmt], d["min"], d["max"], dmsinb_max=d["dmsinb_max"], fmt=fmt, wmin=wmin, fmin=c["data"]["fmin"], fmax=c["data"]["fmax"], nchans=c["data"]["nchans"])
    lo = d["min"] if d["min"] is not None else -math.inf
    hi = d["max"] if d["max"] is not None else math.inf
    if d["dmsinb_max"] is not None:
        hi = min(hi, d["dmsinb_max"] / abs(math.sin(math.radians(glat()))))
    sel = [float(x) for x in it.selected_dms]
    need(all(lo <= x <= hi for x in sel), "%s: selected DM trials %s", d, sel)
    return [DMS.index(x) for x in sel]


def expected(c):
    """Peaks of the selected files."""
    from riptide import ffa_search, find_peaks
    fmt, dr = c["data"]["format"], c["dereddening"]
    out = []
    sel = selection(c)
    for k in sel:
        for r in c["ranges"]:
            key = (fmt, k, repr(dr), repr(r["ffa_search"]), repr(r["find_peaks"]))
            if key not in _pk:
                if len(_pk) > 20000:
                    _pk.clear()
                _, pg = ffa_search(load(fmt, k, dr["rmed_width"], dr["rmed_minpts"]), deredden=False, already_normalised=True, **r["ffa_search"])
                _pk[key] = find_peaks(pg, **(r["find_peaks"] or {}))[0]
            out += _pk[key]
    return sel, out


_base_snap = {}


def check(c, out, msg, ctx):
    sel, peaks = expected(c)
    names = sorted(os.listdir(out))
    if not peaks:
        need(not names, "%s: no peaks expected, but files %s", msg, names)
        return ("none",)
    rows = pipe.read_csv(os.path.join(out, "peaks.csv"))
    got = sorted(tuple(float(r[k]) for k in PK) for r in rows)
    exp = sorted(tuple(float(getattr(p, k)) for k in PK) for p in peaks)
    need(len(got) == len(exp), "%s: %s rows in the peak table, direct searches of the trials %s give %s peaks", msg, len(got), [DMS[k] for k in sel], len(exp))
    exp = sorted(tuple(round(x, 9) for x in e) for e in exp)
    bad = [(g, e) for g, e in zip(got, exp) if any(abs(x - y) > 2e-6 * max(1.0, abs(y)) for x, y in zip(g, e))]
    need(not bad, "%s: the peak table holds %s, direct searches of the trials %s give %s", msg, bad[0][0] if bad else None, [DMS[k] for k in sel], bad[0][1] if bad else None)
    # clusters
    n = len(NS)
    tobs = float(np.median([x * TS for x in NS]))
    rad = c["clustering"]["radius"] / tobs
    o = sorted(peaks, key=lambda p: p.freq)
    groups, decided = [], True
    for p in o:
        gap = p.freq - groups[-1][-1].freq if groups else math.inf
        decided = decided and abs(gap - rad) > 1e-9 * rad
        if gap <= rad:
            groups[-1].append(p)
        else:
            groups.append([p])
    if not decided:
        ctx.extra["undecided_clustering"] += 1
        return None
    C = sorted(((max(g, key=lambda p: p.snr), g) for g in groups), key=lambda x: -x[0].snr)
    if any(abs(a[0].snr - b[0].snr) < 1e-9 for a, b in zip(C, C[1:])) or any(sum(p.snr == cc.snr for p in g) > 1 for cc, g in C):
        ctx.extra["tied_snr"] += 1
        return None
    rows = pipe.read_csv(os.path.join(out, "clusters.csv"))
    need(len(rows) == len(C), "%s: %s rows in the cluster table, expected %s clusters of %s peaks", msg, len(rows), len(C), len(peaks))
    if c["data"]["format"] == "presto":
        fmin, fmax = 1200.0, 1456.0
    else:
        fmin, fmax = c["data"]["fmin"], c["data"]["fmax"]
    parent, frac, ok = [None] * len(C), [None] * len(C), True
    for i, (F, _) in enumerate(C):
        for j in range(i + 1, len(C)):
            if parent[i] is None and parent[j] is None:
                rel, fr = relation(F, C[j][0], tobs, fmin, fmax, c["harmonic_flagging"])
                ok = ok and rel is not None
                if rel:
                    parent[j], frac[j] = i, fr
    for k, (r, (cc, g)) in enumerate(zip(rows, C)):
        need(all(abs(float(r[a]) - float(getattr(cc, a))) < 2e-6 * max(1.0, abs(float(getattr(cc, a)))) for a in ("period", "freq", "dm", "ducy", "snr")), "%s: row %s of the cluster table is %s, expected %s", msg, k, r, cc)
        need(int(float(r["npeaks"])) == len(g) and int(float(r["rank"])) == k, "%s: cluster %s has %s peaks and rank %s, expected %s and %s", msg, k, r["npeaks"], r["rank"], len(g), k)
        if ok:
            h = (int(float(r["fundamental_rank"])), int(float(r["hfrac_num"])), int(float(r["hfrac_denom"])))
            e = (k, 0, 0) if parent[k] is None else (parent[k], frac[k].numerator, frac[k].denominator)
            need(h == e, "%s: cluster of rank %s (frequency %s, DM %s, S/N %s) has (fundamental rank, fraction) %s, expected %s", msg, k, cc.freq, cc.dm, cc.snr, h, e)
    if not ok:
        ctx.extra["undecided_harmonics"] += 1
    harmonic = [int(float(r["fundamental_rank"])) != k for k, r in enumerate(rows)]
    # candidates
    f = c["candidate_filters"]
    keep = [(cc, g) for k, (cc, g) in enumerate(C) if not (f["dm_min"] is not None and cc.dm < f["dm_min"]) and not (f["snr_min"] is not None and cc.snr < f["snr_min"]) and not (f["remove_harmonics"] and harmonic[k])]
    if f["max_number"]:
        keep = keep[:f["max_number"]]
    want = ["clusters.csv", "peaks.csv"] + (["candidates.csv"] if keep else []) + [f"candidate_{i:04d}.json" for i in range(len(keep))]
    need(names == sorted(want), "%s: files %s, expected %s", msg, names[-12:], sorted(want)[-12:])
    cands = pipe.load_cands(out)
    R = c["ranges"]
    for i, (cc, g) in enumerate(keep):
        cand = cands[f"candidate_{i:04d}.json"]
        need(all(cand.params[a] == getattr(cc, a) for a in PK), "%s: candidate %s has parameters %s, expected %s", msg, i, cand.params, cc)
        ts = load(c["data"]["format"], DMS.index(float(cc.dm)), c["dereddening"]["rmed_width"], c["dereddening"]["rmed_minpts"])
        rg = next((r for r in R if r["ffa_search"]["period_min"] <= cc.period < r["ffa_search"]["period_max"]), R[-1] if cc.period >= R[-1]["ffa_search"]["period_max"] else R[0])
        sub = rg["candidates"]["subints"]
        if sub is not None and sub * cc.period >= ts.length:
            sub = None
        ref = ts.fold(cc.period, rg["candidates"]["bins"], subints=sub)
        need(cand.subints.shape == ref.shape and np.allclose(cand.subints, ref, rtol=1e-5, atol=1e-5), "%s: candidate %s (period %s) is folded as %s, expected %s (range %s: %s)", msg, i, cc.period, cand.subints.shape, ref.shape, rg["name"], rg["candidates"])
    if keep:
        rows = pipe.read_csv(os.path.join(out, "candidates.csv"))
        need(len(rows) == len(keep) and all(all(abs(float(r[a]) - float(getattr(cc, a))) < 2e-6 * max(1.0, abs(float(getattr(cc, a)))) for a in PK) for r, (cc, _) in zip(rows, keep)), "%s: candidate table of %s rows, expected %s", msg, len(rows), [cc for cc, _ in keep][:3])
    ctx.extra["harmonics_flagged"] += sum(harmonic)
    ctx.extra["candidates"] += len(keep)
    return (len(peaks), tuple(sel), round(sum(p.snr for p in peaks), 3), tuple(parent), tuple(len(g) for g in groups), tuple(cc.period for cc, _ in keep), tuple(cands[x].subints.shape for x in cands))


def run(c, msg, ctx):
    from riptide.pipeline.pipeline import Pipeline
    out = pipe.fresh(os.path.join(_dir, f"o{os.getpid()}"))
    with pipe.use_pool(pipe.InlinePool):
        Pipeline(copy.deepcopy(c)).process(list(SETS[c["data"]["format"]]), out)
    return check(c, out, msg, ctx)


def ev_one(case, ctx):
    name, S = case["base"], settings(case["base"])
    c0 = base(name)[1]
    if name not in _base_snap:
        _base_snap[name] = run(c0, f"base configuration {name!r}", ctx)
        # the base must have something to tell apart
        b = _base_snap[name]
        if not b or b[0] < 6 or not b[5]:
            raise HarnessError(f"base configuration {name}: {b}")
    for comb in case["combs"]:
        ch = [S[i] for i in comb]
        c = apply(c0, ch)
        if c is None or not valid(c):
            ctx.extra["combinations_not_accepted"] += 1
            continue
        r = run(c, f"base configuration {name!r} with {[('.'.join(map(str, p)), v) for p, v in ch]}", ctx)
        ctx.ev(1, nontrivial=r is not None and r != _base_snap[name])
        ctx.outcome((name, r))
        if len(comb) == 1 and r is not None and r != _base_snap[name]:
            ctx.extra["settings_with_an_effect"] += 1
        if len(comb) == 1 and os.environ.get("C32_VERBOSE"):
            print(name, ch, "SAME" if r == _base_snap[name] else None if r is None else r[0], flush=True)


def spaces(tier):
    out = []
    single, pairs = [], []
    for b in ("one", "two", "three"):
        S = settings(b)
        single += [dict(base=b, combs=[[]])]
        single += [dict(base=b, combs=[[i] for i in range(k, min(len(S), k + 4))]) for k in range(0, len(S), 4)]
        # pairs of different settings; quick: two settings of the same section and one pair in 23 of the others
        ps = [(i, j) for i, j in itertools.combinations(range(len(S)), 2) if S[i][0] != S[j][0] and S[i][0] != S[j][0][:len(S[i][0])] and S[j][0] != S[i][0][:len(S[j][0])]]
        if tier != "thorough":
            ps = ps[::{"one": 29, "two": 61, "three": 83}[b]]
        pairs += [dict(base=b, combs=ps[k:k + 8]) for k in range(0, len(ps), 8)]
    return [Space("single", single, ev_one, "each setting, one at a time"), Space("pairs", pairs, ev_one, "pairs of settings")]
