"""C21: validation of pipeline configurations."""
import copy, itertools, os
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C21"
LEVEL = "exploration"
RULE = ("every single-key mutation (deletion, unknown key, wrong type, boundary and out-of-domain value, blank) of every section of the example and test configurations, all subsets of blanks of the nullable keys and of the optional "
        "keys, through Pipeline() and through the command line with data files that do not exist; all lists of up to 3 ranges over a grid of limits x bins x candidate bins x sampling times, through complete runs")
ASSUMPTIONS = ["strings that look like numbers (YAML reads 1e-3 as one) and booleans in place of numbers are not tested", "ranges whose own period_min is not below period_max are left to the search (not tested)"]

_src = _dir = None


def prepare(src):
    global _src, _dir
    from ..build import scratch
    _src, _dir = src, scratch("riptide-c21-")


def bases():
    import yaml
    out = {}
    for name, path in (("A", "riptide/tests/pipeline_config_A.yml"), ("B", "riptide/tests/pipeline_config_B.yml"), ("example", "riptide/pipeline/config/example.yaml")):
        with open(os.path.join(_src, path)) as f:
            out[name] = yaml.safe_load(f)
    full = pipe.make_conf(fmt="sigproc", band=(1200.0, 1500.0, 64), dmselect=(1.0, 100.0, 30.0), filters=dict(dm_min=1.0, snr_min=7.0, remove_harmonics=True, max_number=3), plot=True)
    full["ranges"] = [pipe.make_range(fpmin=8, wtsp=1.5, ducy_max=0.2), pipe.make_range(pmin=0.4, pmax=2.0, fpmin=2, wtsp=2.0, ducy_max=0.1)]
    for r in full["ranges"]:
        r["find_peaks"] = dict(smin=6.0, segwidth=5.0, nstd=6.0, minseg=10, polydeg=2, clrad=0.1)
    out["full"] = full
    return out


# kind of each key: (section, key) -> (nullable, good values, bad values)
POSF = ([1, 2.5, 1e-6, 1e6], [0, 0.0, -1, -0.5, "abc", [1.0], {"a": 1}])
POSI = ([1, 7, 10 ** 6], [0, -1, 1.5, 2.0, "abc", [1], {"a": 1}])
NUM = ([0, 0.0, -3.5, 1e4, 7], ["abc", [1.0], {"a": 1.0}])
KEYS = {
    ("processes",): (False, *POSI),
    ("data", "format"): (False, ["presto", "sigproc"], ["fits", "", "PRESTO", 3, ["presto"], {"a": 1}]),
    ("data", "fmin"): (True, *POSF), ("data", "fmax"): (True, *POSF), ("data", "nchans"): (True, *POSI),
    ("dmselect", "min"): (True, *NUM), ("dmselect", "max"): (True, *NUM), ("dmselect", "dmsinb_max"): (True, *POSF),
    ("dereddening", "rmed_width"): (False, *POSF), ("dereddening", "rmed_minpts"): (False, [1, 101, 7], [0, -1, "abc", [1], {"a": 1}]),
    ("clustering", "radius"): (False, *POSF),
    ("harmonic_flagging", "denom_max"): (False, *POSI), ("harmonic_flagging", "phase_distance_max"): (False, *POSF),
    ("harmonic_flagging", "dm_distance_max"): (False, *POSF), ("harmonic_flagging", "snr_distance_max"): (False, *POSF),
    ("candidate_filters", "dm_min"): (True, *NUM), ("candidate_filters", "snr_min"): (True, *NUM),
    ("candidate_filters", "remove_harmonics"): (True, [True, False], ["yes", 1, 0, 2.0, [True]]),
    ("candidate_filters", "max_number"): (True, *POSI),
    ("plot_candidates",): (False, [True, False], ["yes", 1, 0, 0.0, [True]]),
}
RKEYS = {
    ("name",): (False, ["x", "", "long name"], [3, 1.5, ["x"], {"a": 1}]),
    ("ffa_search", "period_min"): (False, *POSF), ("ffa_search", "period_max"): (False, *POSF),
    ("ffa_search", "bins_min"): (False, *POSI), ("ffa_search", "bins_max"): (False, *POSI),
    ("candidates", "bins"): (False, *POSI), ("candidates", "subints"): (True, *POSI),
}
ROPT = {
    ("ffa_search", "fpmin"): (False, *POSI), ("ffa_search", "wtsp"): (False, [1.01, 2, 10.0], [1, 1.0, 0.5, 0, -2.0, "abc", [1.5], {"a": 1}]),
    ("ffa_search", "ducy_max"): (False, [1e-6, 0.5, 0.999], [0.0, 1.0, -0.1, 1.5, 0, 1, 2, "abc", [0.1], {"a": 1}]),
    ("find_peaks", "smin"): (False, *POSF), ("find_peaks", "segwidth"): (False, *POSF), ("find_peaks", "nstd"): (False, *POSF),
    ("find_peaks", "minseg"): (False, *POSI), ("find_peaks", "polydeg"): (False, [1, 2, 3], POSF[1]),
    ("find_peaks", "clrad"): ("skip", *POSF),
}
SECTIONS = ["data", "dmselect", "dereddening", "clustering", "harmonic_flagging", "candidate_filters"]
RSECTIONS = ["ffa_search", "candidates"]


def put(conf, path, value):
    d = conf
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value


def rm(conf, path):
    d = conf
    for k in path[:-1]:
        d = d[k]
    d.pop(path[-1], None)


def mutations(conf):
    """(description, operation, path, value, valid)"""
    keys = [(p, v, False) for p, v in KEYS.items()]
    for i in range(len(conf["ranges"])):
        keys += [(("ranges", i) + p, v, False) for p, v in RKEYS.items()] + [(("ranges", i) + p, v, True) for p, v in ROPT.items()]
    out = []
    for p, (nullable, good, bad), opt in keys:
        out += [("set", p, v, True) for v in good] + [("set", p, v, False) for v in bad]
        out.append(("del", p, None, opt))
        if nullable != "skip":
            out.append(("set", p, None, bool(nullable)))
    secs = [(s,) for s in SECTIONS]
    for i in range(len(conf["ranges"])):
        secs += [("ranges", i, s) for s in RSECTIONS + ["find_peaks"]]
    for s in secs:
        fp = s[-1] == "find_peaks"
        out.append(("del", s, None, False))
        out.append(("set", s, None, fp))
        out.append(("set", s, {}, fp))
        for v in ("abc", 3, [], [1]):
            out.append(("set", s, v, False))
        out.append(("set", s + ("unknown_key",), 1.0, False))
        out.append(("set", s + ("unknown_key",), None, False))
    out.append(("set", ("unknown_key",), 1, False))
    out.append(("set", ("unknown_section",), {"a": 1}, False))
    for i in range(len(conf["ranges"])):
        out.append(("set", ("ranges", i, "unknown_key"), 1, False))
        for v in (None, 3, "abc", [], {}):
            out.append(("set", ("ranges", i), v, False))
    out.append(("del", ("ranges",), None, False))
    for v in (None, [], {}, "abc", 3, [None], [[]]):
        out.append(("set", ("ranges",), v, False))
    return out


def norm(c):
    """find_peaks: blank means no keyword."""
    c = copy.deepcopy(c)
    for r in c["ranges"]:
        if r.get("find_peaks") is None:
            r["find_peaks"] = {}
    return c


def judge(conf, valid, msg, ctx, cli=False):
    from riptide.pipeline.config_validation import validate_pipeline_config, InvalidPipelineConfig
    from riptide.pipeline.pipeline import Pipeline
    keep = copy.deepcopy(conf)
    for fn in (validate_pipeline_config, lambda c: Pipeline(c).config):
        try:
            got = fn(conf)
            err = None
        except InvalidPipelineConfig as e:
            err = e
        except Exception as e:
            raise Violation(f"{msg}: {type(e).__name__}: {e} instead of {'acceptance' if valid else 'InvalidPipelineConfig'}")
        need(repr(conf) == repr(keep), "%s: the given configuration was modified", msg)
        if valid:
            need(err is None, "%s: refused: %s", msg, err)
            need(norm(got) == norm(keep), "%s: returned with different values: %s", msg, got)
        else:
            need(err is not None, "%s: accepted", msg)
    if cli and not valid:
        import yaml
        from riptide.pipeline.pipeline import get_parser, run_program
        d = pipe.fresh(os.path.join(_dir, f"cli{os.getpid()}"))
        fn = os.path.join(_dir, f"conf{os.getpid()}.yml")
        with open(fn, "w") as f:
            yaml.safe_dump(conf, f)
        try:
            run_program(get_parser().parse_args(["--config", fn, "--outdir", d, "/nonexistent/file.inf"]))
        except InvalidPipelineConfig:
            pass
        except Exception as e:
            raise Violation(f"{msg} (command line): {type(e).__name__}: {e} instead of InvalidPipelineConfig")
        else:
            raise Violation(f"{msg} (command line): accepted")
        need(not os.listdir(d), "%s: files written: %s", msg, os.listdir(d))
    ctx.ev(1, nontrivial=not valid)
    ctx.outcome((valid, msg))


def ev_mut(case, ctx):
    conf = bases()[case["base"]]
    if case["k"] is None:
        judge(conf, True, f"configuration {case['base']}", ctx)
        return
    muts = mutations(conf)
    n = len(muts)
    for op, p, v, valid in muts[n * case["k"] // case["parts"]:n * (case["k"] + 1) // case["parts"]]:
        c = copy.deepcopy(conf)
        d = c
        for k in p[:-1]:
            d = d[k] if d is not None else None
        if d is None:
            continue
        (put(c, p, v) if op == "set" else rm(c, p))
        judge(c, valid, f"configuration {case['base']} with {'.'.join(map(str, p))} {'= ' + repr(v) if op == 'set' else 'deleted'}", ctx, cli=case["cli"])


def ev_nulls(case, ctx):
    """All subsets of blanks of the nullable keys."""
    conf = bases()["full"]
    keys = [p for p, v in KEYS.items() if v[0] is True]
    keys += [("ranges", i) + p for i in range(2) for p, v in RKEYS.items() if v[0] is True]
    n = len(keys)
    for r in case["sizes"]:
        for sub in itertools.combinations(keys, r):
            c = copy.deepcopy(conf)
            for p in sub:
                put(c, p, None)
            judge(c, True, f"configuration with blank {['.'.join(map(str, p)) for p in sub]}", ctx)


def ev_opts(case, ctx):
    """All subsets of the optional keys of a range."""
    conf = bases()["full"]
    keys = list(ROPT)
    for mask in range(1 << len(keys)):
        if mask % 4 != case["m"]:
            continue
        c = copy.deepcopy(conf)
        for i, p in enumerate(keys):
            if mask >> i & 1:
                rm(c, ("ranges", case["i"]) + p)
        judge(c, True, f"configuration without {[p for i, p in enumerate(keys) if mask >> i & 1]}", ctx)


def ev_good_pairs(case, ctx):
    """Pairs of valid values stay valid; a bad value next to any blank stays invalid."""
    conf = bases()["full"]
    nullable = [p for p, v in KEYS.items() if v[0] is True] + [("ranges", 0) + p for p, v in RKEYS.items() if v[0] is True]
    p, (nl, good, bad) = list(KEYS.items())[case["j"]]
    for q in nullable:
        if q == p:
            continue
        for v in good[:2]:
            c = copy.deepcopy(conf)
            put(c, p, v); put(c, q, None)
            judge(c, True, f"configuration with {p} = {v!r}, {q} blank", ctx)
        for v in bad:
            c = copy.deepcopy(conf)
            put(c, p, v); put(c, q, None)
            judge(c, False, f"configuration with {p} = {v!r}, {q} blank", ctx)


# ---------------------------------------------------------------- ranges

def ev_ranges(case, ctx):
    from riptide.pipeline.pipeline import Pipeline
    from riptide.pipeline.config_validation import InvalidSearchRange, validate_ranges
    ts = case["tsamps"]
    d = pipe.fresh(os.path.join(_dir, f"r{os.getpid()}"))
    files = []
    rng = np.random.RandomState(3)
    for i, t in enumerate(ts):
        files.append(fx.write_presto(d, f"f{i}", rng.normal(size=int(round(4.0 / t))), t, 10.0 * i))
    for combo in case["combos"]:
        ranges = [pipe.make_range(pmin=a, pmax=b, bmin=bn, bmax=bn + 2, cbins=cb, smin=1e3, subints=2) for a, b, bn, cb in combo]
        bad = None
        tmax = max(ts)
        for a, b, bn, cb in combo:
            if bn * tmax > a:
                bad = f"bins_min {bn} x {tmax} > {a}"
            if cb * tmax > a:
                bad = f"candidate bins {cb} x {tmax} > {a}"
        for r1, r2 in zip(combo, combo[1:]):
            if r1[1] != r2[0]:
                bad = f"{r1[1]} != {r2[0]}"
        msg = f"ranges (period_min, period_max, bins, candidate bins) {combo}, sampling times {ts}"
        keep = copy.deepcopy(ranges)
        try:
            validate_ranges(ranges, tmax)
            err = None
        except InvalidSearchRange as e:
            err = e
        need((err is not None) == (bad is not None), "%s: %s, but %s", msg, f"refused ({err})" if err else "accepted", bad or "nothing is wrong")
        need(ranges == keep, "%s: modified", msg)
        out = pipe.fresh(os.path.join(d, "out"))
        conf = pipe.make_conf(ranges=ranges, processes=1, dered=(0.8, 11))
        pl = Pipeline(conf)
        with pipe.use_pool(pipe.InlinePool):
            try:
                pl.process(files, out)
                err = None
            except InvalidSearchRange as e:
                err = e
        need((err is not None) == (bad is not None), "%s: run %s, but %s", msg, f"refused ({err})" if err else "went through", bad or "nothing is wrong")
        need(not os.listdir(out), "%s: files written", msg)
        ctx.ev(1, nontrivial=bad is not None)
        ctx.outcome((bad is None, tuple(map(tuple, combo)), tuple(ts)))


def ev_nodata(case, ctx):
    """A valid configuration with missing data does not end as a configuration error."""
    import yaml
    from riptide.pipeline.pipeline import get_parser, run_program
    from riptide.pipeline.config_validation import InvalidPipelineConfig, InvalidSearchRange
    d = pipe.fresh(os.path.join(_dir, f"cli{os.getpid()}"))
    fn = os.path.join(_dir, f"conf{os.getpid()}.yml")
    with open(fn, "w") as f:
        yaml.safe_dump(bases()[case["base"]], f)
    try:
        run_program(get_parser().parse_args(["--config", fn, "--outdir", d, "/nonexistent/file.inf"]))
    except (InvalidPipelineConfig, InvalidSearchRange) as e:
        raise Violation(f"valid configuration {case['base']} refused: {e}")
    except Exception:
        ctx.ev(1)
        return
    raise Violation("a run on a missing file succeeded")


def spaces(tier):
    deep = tier == "thorough"
    muts = []
    for b in ("full", "example", "A", "B"):
        muts.append(dict(base=b, k=None, parts=1, cli=False))
        for k in range(24):
            muts.append(dict(base=b, k=k, parts=24, cli=deep or b == "full"))
    nulls = [dict(sizes=[r]) for r in range(0, 14)] if deep else [dict(sizes=[r]) for r in (0, 1, 2, 3)] + [dict(sizes=[r]) for r in (11, 12, 13)]
    opts = [dict(i=i, m=m) for i in (0, 1) for m in range(4)]
    pairs = [dict(j=j) for j in range(len(KEYS))]
    # limits are multiples of 0.125; sampling times powers of two: products are exact
    one = [(a, b, bn, cb) for a, b in ((0.125, 0.25), (0.25, 0.5), (0.5, 1.0)) for bn in (4, 8, 9, 16) for cb in (4, 8, 9, 16, 17)]
    combos = [[r] for r in one]
    L = [0.125, 0.25, 0.2500001, 0.375, 0.5]
    for a, b in itertools.combinations(L, 2):
        for c, d in itertools.combinations(L, 2):
            combos.append([(a, b, 4, 4), (c, d, 4, 4)])
    for bn1, cb1, bn2, cb2 in itertools.product((4, 9), (4, 9), (8, 17), (8, 17)):
        combos.append([(0.125, 0.25, bn1, cb1), (0.25, 0.5, bn2, cb2)])
    for lims in itertools.product((0.25, 0.3), (0.25, 0.3), (0.5, 0.45), (0.5, 0.45)):
        combos.append([(0.125, lims[0], 4, 4), (lims[1], lims[2], 8, 8), (lims[3], 1.0, 8, 8)])
    perms = [(0.125, 0.25, 4, 4), (0.25, 0.5, 4, 4), (0.5, 1.0, 4, 4)]
    combos += [list(p) for p in itertools.permutations(perms)] + [[perms[0], perms[2]], [perms[1], perms[0]], [perms[0], perms[0]]]
    R = []
    for ts in ([2.0 ** -6], [2.0 ** -5], [2.0 ** -6, 2.0 ** -5], [2.0 ** -5, 2.0 ** -7, 2.0 ** -6]):
        for k in range(0, len(combos), 12):
            R.append(dict(tsamps=ts, combos=combos[k:k + 12]))
    return [Space("mutations", muts, ev_mut, "every single-key mutation of four configurations"), Space("blanks", nulls, ev_nulls, "all (quick: up to 3 or all but 2) subsets of blank keys"),
            Space("optional", opts, ev_opts, "all subsets of optional keys"), Space("pairs", pairs, ev_good_pairs, "each value next to each blank"),
            Space("ranges", R, ev_ranges, "lists of ranges x sampling times"), Space("nodata", [dict(base=b) for b in ("full", "example", "A", "B")], ev_nodata, "valid configurations, missing data")]
