"""C09: results do not depend on the call history; inputs and earlier outputs stay intact."""
import io, itertools, os, tempfile
import contextlib
import numpy as np
from .. import fixtures as fx
from ..engine import Space, HarnessError, Violation, need, digest

PROP = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of call sequences of the real library from a pristine process, with a determinism/purity oracle (stateless search)"
RULE = ("all ordered sequences of public calls up to the depth bound, each run in a fresh forked process on a common set of argument objects; the result of the last call must "
        "be bit-identical to its result as the first call of a process, the argument objects and all earlier results must be unchanged; also after the argument objects were changed in place (against a fresh process given the changed arguments); then everything in the results is overwritten and the same calls on fresh arguments must give the same results once more")
ASSUMPTIONS = ["a fork of a process that has imported the library, but called nothing, is a pristine state", "calls that draw random numbers seed numpy's generator first"]

_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c09-")
    x = fx.pulse_series(4000, 103.7, 6.0, 2.0, seed=3)
    fx.write_presto(_dir, "a_DM10.0", x, 0.01, 10.0)
    fx.write_presto(_dir, "a_DM0.0", x[::-1], 0.01, 0.0)
    fx.write_presto(_dir, "xray", x, 0.01, 0.0, em="X-ray")
    fx.write_sigproc(_dir, "s1", x, 0.01, 5.0)
    with open(os.path.join(_dir, "s2.tim"), "wb") as f:
        f.write(fx.sp_header(fx.sp_items(tsamp=0.01, refdm=7.0) + [("my_key", 3.25)], {"my_key": "d"}))
        f.write(x.tobytes())
    with open(os.path.join(_dir, "s8.tim"), "wb") as f:
        f.write(fx.sp_header(fx.sp_items(tsamp=0.01, nbits=8, signed=1)))
        f.write(np.arange(-60, 60, dtype=np.int8).tobytes())
    x.tofile(os.path.join(_dir, "raw.bin"))
    np.save(os.path.join(_dir, "raw.npy"), x)


class World:
    """The argument objects shared by the calls of one sequence."""
    def __init__(self):
        import riptide
        from riptide.pipeline.peak_cluster import PeakCluster
        from astropy.coordinates import SkyCoord
        import astropy.units as uu
        x = fx.pulse_series(4000, 103.7, 6.0, 2.0, seed=3)
        self.x = x
        self.x64 = x.astype(float) + 3.0
        self.x2 = x[:600].reshape(20, 30)
        self.meta = {"source_name": "src", "dm": 12.5, "mjd": 59000.5, "skycoord": SkyCoord(12.0, -35.0, unit=uu.deg), "extra": [1, {"a": 2}], "fname": "/x/y"}
        self.ts = riptide.TimeSeries(x.copy(), 0.01, metadata=self.meta)
        self.ts_int = riptide.TimeSeries.from_numpy_array(np.arange(300) % 17, 0.5, copy=True)
        self.widths = [1, 2, 3, 5]
        self.nwidths = np.array([4, 1, 2])
        n = 300
        per = np.linspace(1.0, 1.3, n)
        s = np.zeros((n, 3), dtype=np.float32)
        s[:] = (np.arange(n)[:, None] * 37 % 11) / 3.0
        s[50:53, 1] = (9, 12, 10)
        s[200, :] = (20, 14, 8)
        self.pg = riptide.Periodogram(np.array([1, 2, 3]), per, np.full(n, 32, dtype=np.uint32), s, metadata=self.ts.metadata)
        from riptide.peak_detection import Peak
        P = lambda f, snr, dm: Peak(period=1 / f, freq=f, width=2, ducy=0.05, iw=1, ip=3, snr=snr, dm=dm)
        self.cluster = PeakCluster([P(1.0, 9.0, 0.0), P(1.0001, 12.0, 10.0), P(0.9999, 8.0, 10.0)], rank=0)
        self.peaks = [P(1.0, 20.0, 10.0), P(2.0, 14.1, 10.0), P(0.5, 14.2, 10.1), P(3.3, 8.0, 0.0)]
        self.cand = riptide.Candidate(self.cluster.centre.summary_dict(), self.ts.metadata, self.cluster.summary_dataframe(), np.arange(64, dtype=np.float32).reshape(4, 16) % 7)
        self.vals = np.array([3.0, 1.0, 1.05, 9.0, 3.02, 8.0])
        self.extra_keys = {"my_key": float}
        self.conf = {
            'processes': 1, 'data': {'format': 'presto', 'fmin': None, 'fmax': None, 'nchans': None},
            'dmselect': {'min': 0, 'max': 100, 'dmsinb_max': None}, 'dereddening': {'rmed_width': 5.0, 'rmed_minpts': 101},
            'ranges': [{'name': 'a', 'ffa_search': {'period_min': 1, 'period_max': 2, 'bins_min': 32, 'bins_max': 36}, 'find_peaks': {'smin': 7}, 'candidates': {'bins': 32, 'subints': 4}},
                       {'name': 'b', 'ffa_search': {'period_min': 2, 'period_max': 5.5, 'bins_min': 64, 'bins_max': 70}, 'find_peaks': {}, 'candidates': {'bins': 64, 'subints': None}}],
            'clustering': {'radius': 0.2}, 'harmonic_flagging': {'denom_max': 100, 'phase_distance_max': 1.0, 'dm_distance_max': 3.0, 'snr_distance_max': 3},
            'candidate_filters': {'dm_min': None, 'snr_min': 7, 'remove_harmonics': True, 'max_number': None}, 'plot_candidates': False}
        self.files = [os.path.join(_dir, "a_DM10.0.inf"), os.path.join(_dir, "a_DM0.0.inf")]

    def change(self):
        """Changes all arguments in place (same objects, other contents)."""
        self.x[:] = self.x[::-1].copy()
        self.x64 += 1.5
        self.x2 *= -1
        self.meta["dm"] = 33.0
        self.meta["extra"].append(5)
        self.ts.data[:] = self.ts.data[::-1].copy()
        self.ts_int.data[:] = self.ts_int.data[::-1].copy()
        self.widths[:] = [1, 2, 4, 6]
        self.nwidths += 1
        self.pg.snrs[200, :] = 0
        self.pg.snrs[120, :] = (18, 13, 9)
        self.peaks.reverse()
        self.cand.subints += 1
        self.cand.params["snr"] = 15.0
        self.vals *= 1.7
        self.extra_keys["other"] = int
        self.conf["dereddening"]["rmed_width"] = 4.5
        self.conf["ranges"][1]["candidates"]["bins"] = 60
        self.files.reverse()

    def args(self):
        d = dict(self.__dict__)
        return d


def quiet(fn):
    def g(w):
        with contextlib.redirect_stdout(io.StringIO()) as out:
            r = fn(w)
        return r, out.getvalue()
    return g


def tmpfile(suffix):
    fd, p = tempfile.mkstemp(suffix=suffix, dir=_dir)
    os.close(fd)
    return p


def roundtrip(attr):
    def g(w):
        import riptide
        p = tmpfile(".json")
        riptide.save_json(p, getattr(w, attr))
        r = riptide.load_json(p)
        txt = open(p).read()
        os.remove(p)
        return r, txt
    return g


def plot(w):
    p = tmpfile(".png")
    w.cand.savefig(p, figsize=(6, 2), dpi=40)
    d = open(p, "rb").read(8)
    os.remove(p)
    return d


def rseek(argv):
    def g(w):
        from riptide.apps.rseek import get_parser, run_program
        return run_program(get_parser().parse_args([a.replace("@", _dir + "/") for a in argv]))
    return quiet(g)


def dmiter(w):
    from riptide.pipeline.dmiter import DMIterator
    it = DMIterator(w.files, None, None, dmsinb_max=None, wmin=1e-3)
    return it.selected_dms, list(it.iterate_filenames(1)), it.tobs_median(), it.tsamp_max(), it.fmin, it.fmax, it.nchans


def htests(w):
    from riptide.pipeline.harmonic_testing import htest, hdiag
    return [(i, j, str(htest(a, b, 500.0, 1200.0, 1500.0))) for (i, a), (j, b) in itertools.combinations(enumerate(w.peaks), 2)] + \
        [str(htest(w.peaks[0], w.peaks[3], 500.0, 1200.0, 1500.0, denom_max=7, snr_distance_max=100.0))]


def frames(w):
    from riptide.pipeline.peak_cluster import PeakCluster, clusters_to_dataframe
    a = PeakCluster([w.peaks[0], w.peaks[3]], rank=0)
    b = PeakCluster([w.peaks[1]], rank=1, parent_fundamental=a, hfrac=__import__("fractions").Fraction(2, 1))
    return clusters_to_dataframe([b, a]), w.cluster.summary_dataframe(), w.cluster.summary_dict() if w.cluster.rank is not None else None


def validate(w):
    from riptide.pipeline.config_validation import validate_pipeline_config, validate_ranges
    v = validate_pipeline_config(w.conf)
    validate_ranges(v['ranges'], 0.01)
    return v


def calls():
    import riptide
    from riptide.clustering import cluster1d
    from riptide.ffautils import generate_width_trials
    from riptide.reading import SigprocHeader, PrestoInf
    TS = riptide.TimeSeries
    kw = dict(period_min=0.6, period_max=2.5, bins_min=32, bins_max=36)

    def seeded(f):
        def g(w):
            np.random.seed(5)
            return f(w)
        return g
    def gen_default(w):
        return riptide.generate_signal(500, 33.3)
    def stored(val):
        """Writes a file (always the same name) and loads it."""
        def g(w):
            x = (w.x[:200] * 0 + val).astype(np.float32)
            base = f"stored{os.getpid()}"
            path = os.path.join(_dir, base)
            fx.write_presto(_dir, base, x, 0.01, val)
            fx.write_sigproc(_dir, base, x, 0.01, val)
            np.save(path + ".npy", x)
            riptide.save_json(path + ".json", [val, w.meta["extra"]])
            out = [TS.from_presto_inf(path + ".inf"), TS.from_sigproc(path + ".tim"), TS.from_npy_file(path + ".npy", 0.01)]
            return [(t.data, t.tsamp, {k: v for k, v in t.metadata.items() if k not in ("fname", "basename")}) for t in out], riptide.load_json(path + ".json")
        return g
    C = {
        "stored_a": stored(3.0), "stored_b": stored(4.0),
        "ffa1_twin": lambda w: riptide.ffa1(w.x[::-1].copy(), 37), "ffa2_twin": lambda w: riptide.ffa2(w.x2[::-1].copy()),
        "boxcar_twin": lambda w: riptide.boxcar_snr(w.x2, [1, 2, 3, 6]), "downsample_twin": lambda w: riptide.downsample(w.x, 3.7001), "downsample_twin2": lambda w: riptide.downsample(w.x[::-1].copy(), 3.7),
        "running_median_twin": lambda w: riptide.running_median(w.x64 + 1.0, 51), "fast_running_median_twin": lambda w: riptide.fast_running_median(w.x, 515),
        "signal_twin": lambda w: riptide.generate_signal(300, 21.7, stdnoise=0, amplitude=3.0, ducy=0.1, phi0=0.2504),
        "ts_fold_twin": lambda w: w.ts.fold(1.0370001, 32, subints=7), "ts_fold_twin2": lambda w: w.ts.fold(1.037, 32, subints=8), "ts_deredden_twin": lambda w: w.ts.deredden(2.004, minpts=21),
        "search_twin": lambda w: riptide.ffa_search(w.ts, rmed_width=4.0, **dict(kw, period_min=0.6001)), "search_twin2": lambda w: riptide.ffa_search(w.ts, rmed_width=4.0, ducy_max=0.204, **kw),
        "search_twin3": lambda w: riptide.ffa_search(w.ts.downsample(1.0001), rmed_width=4.0, **kw), "find_peaks_twin": lambda w: riptide.find_peaks(w.pg, smin=4.004, nstd=2.0, segwidth=0.5, clrad=2.0, minseg=3, polydeg=1),
        "width_twin": lambda w: (generate_width_trials(240, ducy_max=0.204), generate_width_trials(50, ducy_max=0.5, wtsp=2.004), generate_width_trials(50, ducy_max=0.496, wtsp=2.0), generate_width_trials(241)),
        "cluster_twin": lambda w: cluster1d(w.vals, 0.04), "cand_twin": lambda w: riptide.Candidate.from_pipeline_output(w.ts, w.cluster, 32, subints=9),
        "ffa1": lambda w: riptide.ffa1(w.x, 37), "ffa2": lambda w: riptide.ffa2(w.x2), "ffafreq": lambda w: (riptide.ffafreq(1000, 7), riptide.ffaprd(1000, 7, dt=0.5)),
        "boxcar_snr": lambda w: riptide.boxcar_snr(w.x2, w.widths), "boxcar_snr_std": lambda w: riptide.boxcar_snr(w.x2[3], w.nwidths, stdnoise=2.0),
        "downsample": lambda w: riptide.downsample(w.x, 3.7), "downsample64": lambda w: riptide.downsample(w.x64, 2),
        "running_median": lambda w: riptide.running_median(w.x64, 51), "fast_running_median": lambda w: riptide.fast_running_median(w.x, 505),
        "fast_running_median_small": lambda w: riptide.fast_running_median(w.x64, 20, min_points=21),
        "signal": seeded(gen_default), "signal_quiet": lambda w: riptide.generate_signal(300, 21.7, stdnoise=0, amplitude=3.0, ducy=0.1, phi0=0.25),
        "ts_generate": seeded(lambda w: TS.generate(10.0, 0.01, 0.7)),
        "ts_normalise": lambda w: w.ts.normalise(), "ts_deredden": lambda w: w.ts.deredden(2.0, minpts=21), "ts_downsample": lambda w: w.ts.downsample(2.5),
        "ts_copy": lambda w: w.ts.copy(), "ts_fold": lambda w: w.ts.fold(1.037, 32), "ts_fold_subints": lambda w: w.ts.fold(1.037, 32, subints=7), "ts_fold_one": lambda w: w.ts.fold(1.037, 20, subints=1),
        "ts_from_array": lambda w: TS.from_numpy_array(w.x, 0.01), "ts_from_array_copy": lambda w: TS.from_numpy_array(w.x64, 0.02, copy=True),
        "ts_init_meta": lambda w: TS(w.x, 0.02, metadata=w.meta), "ts_int_norm": lambda w: w.ts_int.normalise(), "ts_props": lambda w: (w.ts.nsamp, w.ts.length, w.ts.tobs, w.ts.tsamp, str(w.ts)),
        "search": lambda w: riptide.ffa_search(w.ts, rmed_width=4.0, **kw), "search_nodered": lambda w: riptide.ffa_search(w.ts, deredden=False, ducy_max=0.3, wtsp=1.2, **kw),
        "search_raw": lambda w: riptide.ffa_search(w.ts_int, deredden=False, already_normalised=True, period_min=8.0, period_max=20.0, bins_min=16, bins_max=18),
        "search_bad": lambda w: riptide.ffa_search(w.ts, period_min=2.0, period_max=1.0),
        "find_peaks": lambda w: riptide.find_peaks(w.pg), "find_peaks_opts": lambda w: riptide.find_peaks(w.pg, smin=4.0, nstd=2.0, segwidth=0.5, clrad=2.0, minseg=3, polydeg=1),
        "pg_props": lambda w: (w.pg.freqs, w.pg.tobs), "width_trials": lambda w: (generate_width_trials(240), generate_width_trials(50, ducy_max=0.5, wtsp=2.0)),
        "cluster1d": lambda w: cluster1d(w.vals, 0.1), "cluster1d_sorted": lambda w: cluster1d(w.pg.periods, 1e-4, already_sorted=True),
        "metadata": lambda w: riptide.Metadata(w.meta), "metadata_empty": lambda w: riptide.Metadata(), "metadata_bad": lambda w: riptide.Metadata({"dm": -1.0}),
        "json_ts": roundtrip("ts"), "json_pg": roundtrip("pg"), "json_cand": roundtrip("cand"),
        "sigproc_plain": lambda w: TS.from_sigproc(os.path.join(_dir, "s1.tim")), "sigproc_extra": lambda w: TS.from_sigproc(os.path.join(_dir, "s2.tim"), extra_keys=w.extra_keys),
        "sigproc_unknown": lambda w: TS.from_sigproc(os.path.join(_dir, "s2.tim")), "sigproc_override": lambda w: dict(SigprocHeader(os.path.join(_dir, "s1.tim"), extra_keys={"refdm": float, "tstart": float, "zzz": int})),
        "sigproc8": lambda w: TS.from_sigproc(os.path.join(_dir, "s8.tim")), "md_sigproc": lambda w: riptide.Metadata.from_sigproc(os.path.join(_dir, "s1.tim")),
        "presto": lambda w: TS.from_presto_inf(os.path.join(_dir, "a_DM10.0.inf")), "presto_xray": lambda w: TS.from_presto_inf(os.path.join(_dir, "xray.inf")),
        "md_presto": lambda w: riptide.Metadata.from_presto_inf(os.path.join(_dir, "a_DM0.0.inf")), "binary": lambda w: TS.from_binary(os.path.join(_dir, "raw.bin"), 0.01),
        "npy": lambda w: TS.from_npy_file(os.path.join(_dir, "raw.npy"), 0.01),
        "cand_profile": lambda w: (w.cand.profile, w.cand.dm_curve), "cand_plot": plot, "cand_build": lambda w: riptide.Candidate.from_pipeline_output(w.ts, w.cluster, 32, subints=8),
        "cand_build_none": lambda w: riptide.Candidate.from_pipeline_output(w.ts, w.cluster, 16, subints=10 ** 6),
        "dmiter": dmiter, "htest": htests, "frames": frames, "validate": validate,
        "rseek": rseek(["-f", "presto", "--Pmin", "0.6", "--Pmax", "2.0", "--bmin", "32", "--bmax", "36", "@a_DM10.0.inf"]),
        "rseek_none": rseek(["-f", "sigproc", "--Pmin", "0.6", "--Pmax", "2.0", "--bmin", "32", "--bmax", "36", "--smin", "1000", "@s1.tim"]),
    }
    return C


EXPECT_ERROR = {"search_bad", "metadata_bad", "sigproc_unknown"}


def run1(C, name, w):
    try:
        return C[name](w)
    except Exception as e:
        if name not in EXPECT_ERROR:
            raise Violation(f"{name}: unexpected {type(e).__name__}: {e}")
        return e


def scribble(o, seen, depth=0):
    """Overwrites everything in a result that its receiver may write to."""
    import pandas
    if id(o) in seen or depth > 8:
        return
    seen[id(o)] = o
    if isinstance(o, np.ndarray):
        if o.dtype == object or not o.flags.writeable or o.size == 0:
            return
        if o.dtype.names:
            for n in o.dtype.names:
                scribble(o[n], seen, depth + 1)
        elif o.dtype.kind in "iufb":
            o[...] = 1
    elif isinstance(o, pandas.DataFrame):
        for c in list(o.columns):
            o[c] = 1
    elif isinstance(o, dict):
        for v in list(o.values()):
            scribble(v, seen, depth + 1)
        for k in list(o):
            o[k] = "scribbled"
        o["scribbled"] = 1.0
    elif isinstance(o, (list, tuple)):
        for v in list(o):
            scribble(v, seen, depth + 1)
        if isinstance(o, list):
            o.reverse()
            o.append(1)
    elif type(o).__module__.split(".")[0] == "riptide":
        for v in list(getattr(o, "__dict__", {}).values()):
            scribble(v, seen, depth + 1)


def isolated(seq, again=False):
    """Runs the sequence in a fresh fork; returns list of (result digest) or a message.

    again: afterwards overwrites all results, and makes the same calls once more on fresh arguments."""
    import pickle
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = None
        try:
            os.close(r)
            C = calls()
            w = World()
            base = fx.canon(w.args())
            results, digs, outs = [], [], []
            try:
                for name in seq:
                    if name == CHANGE:
                        w.change()
                        base = fx.canon(w.args())
                        results.append(None)
                        outs.append(None)
                        digs = [fx.canon(r) for r in results]  # results may share memory with the arguments
                        continue
                    res = run1(C, name, w)
                    results.append(res)
                    digs.append(fx.canon(res))
                    outs.append(digs[-1])
                    now = fx.canon(w.args())
                    if now != base:
                        which = [k for k in w.__dict__ if fx.canon(w.__dict__[k]) != dict(base[1]).get(k)]
                        raise Violation(f"{name} modified its arguments ({which})")
                    for n2, o, d in zip(seq, results[:-1], digs[:-1]):
                        if fx.canon(o) != d:
                            raise Violation(f"{name} changed data returned earlier by {n2}")
                if again:
                    seen = {}
                    for r in results:
                        scribble(r, seen)
                    for name, d in reversed(list(zip(seq, outs))):
                        if name == CHANGE:
                            continue
                        w = World()
                        if fx.canon(run1(C, name, w)) != d:
                            raise Violation(f"{name} gives another result after its receiver wrote into the results of {sorted(set(seq))}")
                out = ("ok", [digest(d) for d in outs])
            except Violation as v:
                out = ("bad", str(v))
        except BaseException:
            import traceback
            out = ("harness", traceback.format_exc())
        finally:
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps(out))
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Violation(f"sequence {seq}: the interpreter died (status {st})")
    kind, val = pickle.loads(data)
    if kind == "harness":
        raise HarnessError(val)
    need(kind == "ok", "sequence %s: %s", seq, val)
    return val


CHANGE = "(arguments changed in place)"
_base = {}


def baseline(name, changed=False):
    key = name, changed
    if key not in _base:
        _base[key] = isolated([CHANGE, name])[1] if changed else isolated([name])[0]
    return _base[key]


def ev(case, ctx):
    for seq in case["seqs"]:
        got = isolated(seq, CHANGE not in seq)
        for k, name in enumerate(seq):
            if name == CHANGE:
                continue
            need(got[k] == baseline(name, CHANGE in seq[:k]), "sequence %s: the result of call %d (%s) differs from its result in a fresh process", seq, k, name)
            ctx.transitions += 1
        ctx.state(tuple(seq))
        ctx.ev(1)
        ctx.traces += 1
        ctx.outcome(tuple(got))


def spaces(tier):
    names = sorted(calls())
    one = [dict(seqs=[[a], [a, CHANGE, a]]) for a in names]
    two = [dict(seqs=[[a, b] for b in names]) for a in names]
    sp = [Space("single", one, ev, "each call alone, again, and after its arguments were changed in place"), Space("pairs", two, ev, "all ordered pairs of calls", batch=1)]
    if tier == "thorough":
        # all triples (a, b, a) and (a, a, b), and all triples over a stateful subset
        sub = [n for n in names if n.split("_")[0] in ("search", "find", "sigproc", "metadata", "md", "json", "cand", "ts", "rseek", "signal", "validate", "dmiter", "htest")]
        sp.append(Space("sandwich", [dict(seqs=[[a, b, a] for b in names]) for a in names], ev, "a, b, a for all a, b", batch=1))
        sp.append(Space("changed", [dict(seqs=[[a, CHANGE, b] for b in names]) for a in names], ev, "all ordered pairs of calls, with the arguments changed in place in between", batch=1))
        sp.append(Space("triples", [dict(seqs=[[a, b, c] for c in sub]) for a in sub for b in sub], ev, "all triples over the calls with options or files", batch=1))
    return sp
