"""C23: reuse of a pipeline object."""
import itertools, os
import numpy as np
from .. import pipe
from ..engine import Space, Violation, HarnessError, need
from . import c20

PROP = "C23"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all histories of runs of one real pipeline object up to a length, each run's products compared with those of a fresh object"
RULE = ("every sequence of up to 3 (thorough 4) runs of one pipeline object over data sets with many signals, one strong signal, none, signals that are all filtered out, other DMs, and runs that fail (missing file, differing positions, "
        "failing worker), for several configurations; after each run the output directory holds exactly what a fresh object writes for that data set, and the object holds only that run's peaks and candidates")
ASSUMPTIONS = ["runs use an in-process pool (scheduling is covered by C20)"]

_dir = None
BAD = {}
_ref = {}


def prepare(src):
    global _dir
    c20.prepare(src)
    _dir = c20._dir
    A = [(0.31, 0.04, 3.0), (0.83, 0.06, 3.5)]
    c20.gen("many", [(0.0, 1, A, 600), (100.0, 2, [(0.53, 0.05, 4.0)], 600)])
    c20.gen("single", [(0.0, 5, [(0.7, 0.05, 2.6)], 600), (100.0, 6, [], 600)])
    c20.gen("none", [(0.0, 3, [], 600), (100.0, 4, [], 600)])
    c20.gen("highdm", [(500.0, 1, A, 640), (700.0, 6, [], 640)])
    BAD["missing"] = [c20.SETS["many"][0], os.path.join(_dir, "nothing.inf")]
    BAD["nodata"] = list(c20.SETS["many"])


NAMES = ["many", "single", "none", "highdm"]
CONFS = {
    "plain": dict(),
    "dmcut": dict(filters=dict(dm_min=50.0)),
    "top1": dict(filters=dict(max_number=1, remove_harmonics=True)),
    "snr": dict(filters=dict(snr_min=11.0)),
    "dmsel": dict(dmselect=(0.0, 600.0, None)),
}


def cf(name):
    return c20.conf(1, **CONFS[name])


def one(pl, name, out):
    """(products, error type)"""
    from riptide import TimeSeries
    pipe.fresh(out)
    with pipe.use_pool(pipe.InlinePool):
        if name == "nodata":
            def failing(orig):
                def f(self, *a, **k):
                    if self.metadata["dm"] == 100.0:
                        raise RuntimeError("injected worker failure")
                    return orig(self, *a, **k)
                return f
            with pipe.patched((TimeSeries, "deredden", failing(TimeSeries.deredden)), (TimeSeries, "normalise", failing(TimeSeries.normalise))):
                try:
                    pl.process(BAD[name], out)
                except Exception as e:
                    return pipe.snapshot(out), type(e).__name__
        else:
            try:
                pl.process(list(c20.SETS.get(name) or BAD[name]), out)
            except Exception as e:
                return pipe.snapshot(out), type(e).__name__
    return pipe.snapshot(out), None


def counts(pl):
    return tuple(len(getattr(pl, a, ())) for a in ("peaks", "clusters", "candidates"))


def ref(name, conf):
    from riptide.pipeline.pipeline import Pipeline
    if (name, conf) not in _ref:
        pl = Pipeline(cf(conf))
        snap, err = one(pl, name, os.path.join(_dir, f"ref{os.getpid()}"))
        _ref[name, conf] = (snap, err, counts(pl))
    return _ref[name, conf]


def ev_seq(case, ctx):
    from riptide.pipeline.pipeline import Pipeline
    conf = case["conf"]
    for tail in itertools.product(case["alphabet"], repeat=case["len"] - len(case["head"])):
        seq = list(case["head"]) + list(tail)
        pl = Pipeline(cf(conf))
        for k, name in enumerate(seq):
            exp, eerr, ecnt = ref(name, conf)
            got, err = one(pl, name, os.path.join(_dir, f"o{os.getpid()}"))
            msg = f"configuration {conf}, runs {seq[:k + 1]} of one pipeline object"
            need(err == eerr, "%s: the last run ended with %s, a fresh object with %s", msg, err or "success", eerr or "success")
            e = pipe.same_content(exp, got)
            need(e is None, "%s: products of the last run differ from those of a fresh object: %s", msg, e)
            if err is None:
                need(counts(pl) == ecnt, "%s: numbers of peaks, clusters, candidates %s, with a fresh object %s", msg, counts(pl), ecnt)
            ctx.transitions += 1
            ctx.state((conf, tuple(seq[:k + 1])))
        ctx.traces += 1
        ctx.ev(1)
        ctx.outcome((conf, tuple(seq)))


def ev_outdirs(case, ctx):
    """Runs into the same directory one after the other, and two objects interleaved."""
    from riptide.pipeline.pipeline import Pipeline
    a, b = Pipeline(cf("plain")), Pipeline(cf("dmcut"))
    for k, (who, name) in enumerate(case["seq"]):
        pl, conf = ((a, "plain"), (b, "dmcut"))[who]
        exp, eerr, ecnt = ref(name, conf)
        got, err = one(pl, name, os.path.join(_dir, f"o{os.getpid()}"))
        need(err == eerr, "interleaved objects, history %s: ended with %s, alone with %s", case["seq"][:k + 1], err, eerr)
        e = pipe.same_content(exp, got)
        need(e is None, "interleaved objects, history %s: products differ from those of a fresh object: %s", case["seq"][:k + 1], e)
        ctx.transitions += 1
        ctx.state(("inter", tuple(map(tuple, case["seq"][:k + 1]))))
    ctx.traces += 1
    ctx.ev(1)


def ev_sanity(case, ctx):
    """The data sets are what they are meant to be (else the histories would show nothing)."""
    n = {name: len([f for f in ref(name, "plain")[0] if f.endswith(".json")]) for name in NAMES}
    if not (n["many"] > 2 and n["single"] >= 1 and n["none"] == 0 and n["highdm"] >= 1):
        ctx.extra["data_sets_do_not_give_the_intended_numbers_of_candidates"] += 1
    ctx.ev(1)


def spaces(tier):
    deep = tier == "thorough"
    L = 4 if deep else 3
    cases = []
    for conf in CONFS:
        al = NAMES + (["missing", "nodata"] if conf in ("plain", "top1") else [])
        for h in itertools.product(al, repeat=2):
            cases.append(dict(conf=conf, alphabet=al if deep or conf == "plain" else NAMES, len=L if deep and conf == "plain" else 3, head=list(h)))
    inter = [dict(seq=[list(x) for x in s]) for s in itertools.product([(w, n) for w in (0, 1) for n in ("many", "none", "highdm")], repeat=3 if deep else 2)]
    return [Space("sanity", [{}], ev_sanity, "data sets"), Space("sequences", cases, ev_seq, "all sequences of runs"), Space("interleaved", inter, ev_outdirs, "two objects")]
