"""C20: pipeline products do not depend on scheduling or file order."""
import itertools, os
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C20"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real pipeline under a controlled process pool: every feasible worker assignment and completion order of every pool is executed in forked workers"
RULE = ("complete real runs (search included) on small data sets with exactly tied DM trials; a controlled pool replaces multiprocessing.Pool and runs tasks in forked worker processes following an explicit schedule: all feasible "
        "(assignment to workers, completion order) pairs of every pool of the run are enumerated, for all process counts and all orders of the files; products are compared with those of a single process, and the searched peaks "
        "with a direct search of each selected file; every single worker task failing makes the run raise; some runs use the real pool")
ASSUMPTIONS = ["tasks of a pool interact only through the file system and through state kept in a worker process; they are executed one at a time, at their completion, so every order of effects is covered", "a worker failure is an exception raised by its task (killed workers are not modelled)"]

_dir = None
SETS = {}
TS = 0.01


def gen(name, specs):
    """specs: list of (dm, seed, [(period s, width s, amplitude)], n)"""
    d = os.path.join(_dir, name)
    os.makedirs(d)
    files = []
    for k, (dm, seed, sigs, n) in enumerate(specs):
        x = np.random.RandomState(seed).normal(size=n)
        t = np.arange(n) * TS
        for P, w, a in sigs:
            x[((t / P - 0.3) % 1.0) < w / P] += a
        files.append(fx.write_presto(d, f"f{k}", x, TS, dm, fbot="1200.0", nchan="16", cbw="10.0", bandwidth="160"))
    SETS[name] = files


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c20-")
    A = [(0.31, 0.04, 3.0), (0.83, 0.06, 3.5)]
    B = [(0.53, 0.05, 4.0)]
    # DMs whose coverage radii never touch: all selected; exact ties between DM trials with the same seed
    gen("tied3", [(0.0, 1, A, 600), (100.0, 1, A, 600), (200.0, 1, A, 600)])
    gen("mixed3", [(0.0, 1, A, 600), (100.0, 2, B, 600), (200.0, 1, A, 600)])
    gen("mixed4", [(0.0, 3, [], 600), (100.0, 1, A, 600), (200.0, 2, B, 500), (300.0, 1, A, 600)])
    gen("five", [(0.0, 1, A, 600), (100.0, 2, B, 600), (200.0, 3, [], 600), (300.0, 2, B, 600), (400.0, 1, A, 600)])
    gen("one", [(50.0, 1, A + B, 600)])
    gen("sparse", [(0.0, 1, A, 600), (5.0, 2, B, 600), (100.0, 1, A, 600), (101.0, 3, B, 600), (102.0, 4, B, 600)])
    # trials of different signal content (numbers of peaks), all with peaks at the same trial period
    S, X = (0.31, 0.06, 6.0), [(0.83, 0.06, 6.0), (0.53, 0.05, 6.0)]
    gen("uneven", [(0.0, 1, [S] + X, 600), (100.0, 2, [S], 600), (200.0, 5, [S] + X[:1], 600), (300.0, 4, [S], 600)])
    gen("noise", [(0.0, 3, [], 600), (100.0, 4, [], 600)])


def conf(processes, plot=False, **k):
    rs = [pipe.make_range(pmin=0.2, pmax=0.5, bmin=10, bmax=12, cbins=12, subints=6, smin=6.5, name="s"), pipe.make_range(pmin=0.5, pmax=1.2, bmin=20, bmax=22, cbins=16, subints=None, smin=6.5, name="l")]
    return pipe.make_conf(ranges=rs, processes=processes, dered=(1.5, 31), plot=plot, harm=dict(denom_max=20, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0), **k)


def go(files, cf, out, poolcls):
    from riptide.pipeline.pipeline import Pipeline
    pipe.fresh(out)
    import contextlib
    with (pipe.use_pool(poolcls) if poolcls else contextlib.nullcontext()):
        Pipeline(cf).process(list(files), out)
    return pipe.snapshot(out)


_ref = {}


def reference(name, plot=False, **k):
    """Products of a run in one process, in the given file order."""
    key = (name, plot, repr(k))
    if key not in _ref:
        out = os.path.join(_dir, f"ref{os.getpid()}")
        _ref[key] = go(SETS[name], conf(1, plot, **k), out, pipe.InlinePool)
    return _ref[key]


def expected_peaks(name):
    """Rows of the peak table, from direct calls on each selected file."""
    from riptide import TimeSeries, ffa_search, find_peaks
    from riptide.pipeline.dmiter import DMIterator
    it = DMIterator(SETS[name], None, None, dmsinb_max=None, fmt="presto", wmin=0.02)
    sel = [f for c in it.iterate_filenames(1) for f in c]
    rows = []
    cf = conf(1)
    for f in sel:
        ts = TimeSeries.from_presto_inf(f).deredden(1.5, minpts=31).normalise()
        for r in cf["ranges"]:
            _, pg = ffa_search(ts, deredden=False, already_normalised=True, **r["ffa_search"])
            pk, _ = find_peaks(pg, **r["find_peaks"])
            rows += [tuple(round(float(v), 9) for v in (p.period, p.freq, p.dm, p.width, p.ducy, p.snr)) for p in pk]
    return sorted(rows), [float(d) for d in it.selected_dms]


def ev_base(case, ctx):
    """The single process run holds exactly the peaks of direct searches."""
    import csv, io
    name = case["set"]
    ref = reference(name)
    exp, sel = expected_peaks(name)
    if case["need"] == "many":
        if len(exp) < 4:
            ctx.extra["data_sets_with_few_peaks"] += 1
    if "peaks.csv" not in ref:
        need(not exp, "%s: no peak table, but %s peaks expected", name, len(exp))
        need(not ref, "%s: files %s", name, sorted(ref))
    else:
        rows = sorted(tuple(round(float(r[k]), 9) for k in ("period", "freq", "dm", "width", "ducy", "snr")) for r in csv.DictReader(io.StringIO(ref["peaks.csv"].decode())))
        need(len(rows) == len(exp) and all(np.allclose(a, b, rtol=0, atol=2e-9 * max(1, max(map(abs, b)))) for a, b in zip(rows, exp)), "%s: peak table holds %s rows, direct searches of the selected trials %s give %s", name, len(rows), sel, len(exp))
    ctx.ev(1)
    ctx.state(("base", name))


def ev_sched(case, ctx):
    """One run per schedule of each pool (all other pools in submission order); this case takes one schedule in 'parts'."""
    nth = 0
    name, w = case["set"], case["w"]
    ref = reference(name, **case.get("kw", {}))
    out = os.path.join(_dir, f"o{os.getpid()}")
    cls = pipe.ScheduledPool
    cf = conf(w, **case.get("kw", {}))

    def default(i, k, p):
        return tuple(t % min(p, k) for t in range(k)), tuple(range(k))
    # discover the pools of this run
    cls.count, cls.log, cls.plan = 0, [], staticmethod(default)
    files = [SETS[name][i] for i in case["order"]]
    r = go(files, cf, out, cls)
    e = pipe.same_content(ref, r)
    need(e is None, "%s, %s processes, file order %s: products differ from those of one process: %s", name, w, case["order"], e)
    pools = list(cls.log)
    for num, k, p, _, _ in pools:
        if k > 5:
            # cannot happen on the original pipeline with these data sets; some schedules only
            ctx.extra["partially_enumerated_pools"] += 1
            scheds = [(tuple(t % q for t in range(k)), tuple(range(k))) for q in range(1, min(p, k) + 1)] + ([(tuple(range(k)), tuple(range(k))[::-1])] if p >= k else [])
        else:
            scheds = pipe.feasible_schedules(k, min(p, k))
        for asg, order in scheds:
            nth += 1
            if nth % case["parts"] != case["part"]:
                continue
            cls.count, cls.log = 0, []
            cls.plan = staticmethod(lambda i, kk, pp, num=num, asg=asg, order=order: (asg, order) if i == num and kk == len(asg) else default(i, kk, pp))
            r = go(files, cf, out, cls)
            e = pipe.same_content(ref, r)
            need(e is None, "%s, %s processes, file order %s, pool %s: tasks assigned to workers %s completing in order %s: products differ from those of one process: %s", name, w, case["order"], num, asg, order, e)
            ctx.ev(1)
            ctx.traces += 1
            ctx.transitions += k
            done = frozenset()
            for t in order:
                done = done | {t}
                ctx.state((name, w, tuple(case["order"]), num, asg[:], tuple(sorted(done)), t))
    ctx.outcome((name, w))


def ev_joint(case, ctx):
    """All pools at once in reversed completion order, or all tasks on one worker."""
    name, w = case["set"], case["w"]
    ref = reference(name)
    out = os.path.join(_dir, f"o{os.getpid()}")
    cls = pipe.ScheduledPool
    for kind in ("reversed", "last-first", "one-worker"):
        def plan(i, k, p, kind=kind):
            sch = pipe.feasible_schedules(k, min(k, p)) if k <= 5 else [(tuple(t % min(p, k) for t in range(k)), tuple(range(k)))]
            if kind == "one-worker":
                return (0,) * k, tuple(range(k))
            sch = sorted(sch, key=lambda s: (len(set(s[0])), s[1]))
            return sch[-1] if kind == "reversed" else sch[len(sch) // 2]
        cls.count, cls.log, cls.plan = 0, [], staticmethod(plan)
        r = go(SETS[name], conf(w), out, cls)
        e = pipe.same_content(ref, r)
        need(e is None, "%s, %s processes, %s completion: %s", name, w, kind, e)
        ctx.ev(1)
        ctx.traces += 1
        ctx.transitions += sum(x[1] for x in cls.log)
        ctx.state((name, w, kind))


def ev_orders(case, ctx):
    name = case["set"]
    ref = reference(name)
    out = os.path.join(_dir, f"o{os.getpid()}")
    n = len(SETS[name])
    for perm in itertools.permutations(range(n)):
        if perm[0] != case["first"]:
            continue
        for w in case["ws"]:
            r = go([SETS[name][i] for i in perm], conf(w), out, pipe.InlinePool)
            e = pipe.same_content(ref, r)
            need(e is None, "%s, %s processes, files in order %s: products differ: %s", name, w, perm, e)
            ctx.ev(1)
            ctx.traces += 1
            ctx.transitions += 1
            ctx.state((name, perm, w))


def ev_real(case, ctx):
    """The real process pool."""
    name, w = case["set"], case["w"]
    ref = reference(name, plot=case["plot"])
    out = os.path.join(_dir, f"o{os.getpid()}")
    for _ in range(case["n"]):
        r = pipe.in_child(lambda: go(SETS[name][::-1], conf(w, plot=case["plot"]), out, None), timeout=100.0)
        e = pipe.same_content(ref, r)
        need(e is None, "%s, real pool of %s processes: %s", name, w, e)
        ctx.ev(1)
        ctx.traces += 1
        ctx.transitions += 1
    ctx.state((name, w, "real", case["plot"]))


def ev_fail(case, ctx):
    """Each search task in turn raises, in each process count: the run fails and writes nothing."""
    from riptide import TimeSeries
    name, w = case["set"], case["w"]
    out = os.path.join(_dir, f"o{os.getpid()}")
    exc = {"ValueError": ValueError, "RuntimeError": RuntimeError, "OSError": OSError, "IndexError": IndexError, "MemoryError": MemoryError}[case["exc"]]
    sel = expected_peaks(name)[1]
    cls = pipe.ScheduledPool
    for dm in sel:
        def failing(orig):
            def f(self, *a, **k):
                if self.metadata["dm"] == dm:
                    raise exc("injected worker failure")
                return orig(self, *a, **k)
            return f
        for poolcls in (pipe.InlinePool, cls, None) if case["real"] else (pipe.InlinePool, cls):
            cls.count, cls.log, cls.plan = 0, [], staticmethod(lambda i, k, p: (tuple(t % min(p, k) for t in range(k)), tuple(range(k))))
            with pipe.patched((TimeSeries, "deredden", failing(TimeSeries.deredden)), (TimeSeries, "normalise", failing(TimeSeries.normalise))):
                try:
                    r = pipe.in_child(lambda: go(SETS[name], conf(w), out, poolcls), timeout=100.0)
                except TimeoutError as e:
                    raise Violation(f"{name}, {w} processes, pool {poolcls}: the search of DM {dm} failed with {case['exc']} and the run did not end: {e}")
                except Exception as e:
                    left = os.listdir(out)
                    need(not left, "%s, %s processes: the search of DM %s failed (%s), the run raised %s but left %s", name, w, dm, case["exc"], type(e).__name__, left)
                else:
                    raise Violation(f"{name}, {w} processes, pool {poolcls}: the search of DM {dm} failed with {case['exc']}, but the run succeeded with files {sorted(r)}")
            ctx.ev(1)
            ctx.traces += 1
            ctx.transitions += 1
            ctx.state((name, w, "fail", dm, case["exc"], str(poolcls)))


def ev_once(case, ctx):
    """Every selected trial is searched exactly once, whatever the number of processes."""
    from riptide import TimeSeries
    name, w = case["set"], case["w"]
    out = os.path.join(_dir, f"o{os.getpid()}")
    exp, sel = expected_peaks(name)
    import inspect, riptide
    seen = []
    orig = riptide.ffa_search
    sig = inspect.signature(orig)

    def search(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        seen.append((b.args[0].metadata["dm"], b.arguments["period_min"]))
        return orig(*a, **k)
    with pipe.replaced(orig, search):
        go(SETS[name], conf(w), out, pipe.InlinePool)
    need(sorted(seen) == sorted((d, p) for d in sel for p in (0.2, 0.5)), "%s, %s processes: searched (DM, period_min) %s, selected DMs are %s", name, w, sorted(seen), sel)
    ctx.ev(1)
    ctx.traces += 1
    ctx.transitions += len(seen)
    ctx.state((name, w, "once"))


def spaces(tier):
    deep = tier == "thorough"
    sched = []
    for name, ws in (("uneven", (2, 3, 4)), ("tied3", (1, 2, 3, 4)), ("mixed3", (2, 3)), ("mixed4", (2, 3, 4)), ("one", (1, 2)), ("five", (2, 5) if deep else (2,))):
        n = len(SETS.get(name, [0] * {"uneven": 4, "tied3": 3, "mixed3": 3, "mixed4": 4, "one": 1, "five": 5}[name]))
        orders = list(itertools.permutations(range(n))) if deep and n < 4 else [tuple(range(n))[::-1], tuple(range(n))][: 1 if n in (1, 4) and not deep else 2]
        for w in ws:
            for o in orders:
                parts = {1: 1, 2: 2, 3: 4}.get(w, 8)
                for part in range(parts):
                    sched.append(dict(set=name, w=w, order=list(o), part=part, parts=parts, kw=dict(filters=dict(max_number=3))))
    joint = [dict(set=s, w=w) for s in ("uneven", "tied3", "mixed3", "mixed4", "five", "sparse", "one") for w in (1, 2, 3, 4, 5, 8)]
    orders = [dict(set=s, first=f, ws=[1, 2, 3] if n < 5 else [1, 2]) for s, n in (("uneven", 4), ("tied3", 3), ("mixed3", 3), ("mixed4", 4), ("sparse", 5), ("five", 5)) for f in range(n) if n < 5 or deep or f < 2]
    real = [dict(set=s, w=w, plot=False, n=4 if deep else 1) for s in ("uneven", "tied3", "mixed4", "five") for w in (1, 2, 3, 4, 6)] + [dict(set="tied3", w=2, plot=True, n=1)]
    fail = [dict(set=s, w=w, exc=e, real=w < 3) for s in ("tied3", "mixed4") for w in (1, 2, 3) for e in ("ValueError", "RuntimeError", "OSError", "IndexError", "MemoryError")]
    once = [dict(set=s, w=w) for s in ("uneven", "tied3", "mixed4", "five", "sparse", "one", "noise") for w in (1, 2, 3, 4, 5, 6)]
    return [Space("base", [dict(set=s, need="many" if s not in ("noise",) else "") for s in ("uneven", "tied3", "mixed3", "mixed4", "five", "one", "sparse", "noise")], ev_base, "products of one process against direct searches"),
            Space("schedules", sched, ev_sched, "all schedules of each pool"), Space("joint", joint, ev_joint, "extreme schedules of all pools at once"), Space("orders", orders, ev_orders, "all orders of the files"),
            Space("real", real, ev_real, "the real pool"), Space("failures", fail, ev_fail, "each search task failing"), Space("once", once, ev_once, "each trial searched once")]
