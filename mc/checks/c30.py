"""C30: the pipeline program: output directory, logging options and refusals."""
import itertools, logging, os, re, shutil, sys
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C30"
LEVEL = "exploration"
RULE = ("all combinations of log level (omitted and each choice) x timings flag x log file (none, new, replacing an old one, inside the output directory) x output directory (omitted, ., relative, absolute, with trailing slash), with short and long "
        "spellings and options before, between and after the files in turn; all orders of the input files x absolute and relative names; every single wrong argument; each a complete run of main() in a process of its own "
        "on small files with real peaks, all files of the working, output and data directories compared")
ASSUMPTIONS = ["tasks of the process pool run in the main process (what they may do in other processes and in which order is decided by C20)",
               "log lines are recognised by their level word and timing lines by 'runtime', as in the program's log format"]

_dir = None
LEVELS = ["DEBUG", "INFO", "WARNING"]
FILES = ["f0", "f1", "f2"]


def conf(plot=False):
    return pipe.make_conf(ranges=[pipe.make_range(pmin=0.5, pmax=1.2, bmin=16, bmax=18, smin=7.0, cbins=16, subints=3), pipe.make_range(pmin=1.2, pmax=2.0, bmin=16, bmax=18, smin=7.0, cbins=16, subints=3)],
                          processes=2, dered=(3.0, 11), plot=plot)


def prepare(src):
    global _dir
    import yaml
    from ..build import scratch
    _dir = scratch("riptide-c30-")
    os.environ["MPLBACKEND"] = "Agg"
    os.makedirs(os.path.join(_dir, "data"))
    # programs are imported here and run elsewhere
    os.makedirs(os.path.join(_dir, "start"))
    os.chdir(os.path.join(_dir, "start"))
    for i, dm in enumerate((0.0, 5.0, 10.0)):
        x = fx.pulse_series(1024, 0.83 * 64, 5.0, 2.0 + (i == 1), seed=i) + fx.pulse_series(1024, 1.61 * 64, 7.0, 1.5, seed=9 + i) * 0.7
        fx.write_presto(os.path.join(_dir, "data"), FILES[i], x, 1.0 / 64, dm)
    for name, c in (("conf", conf()), ("plot", conf(True)), ("bad", dict(conf(), processes=0))):
        with open(os.path.join(_dir, name + ".yml"), "w") as f:
            yaml.safe_dump(c, f)
    with open(os.path.join(_dir, "nomap.yml"), "w") as f:
        f.write("- 1\n- 2\n")
    with open(os.path.join(_dir, "notyaml.yml"), "w") as f:
        f.write("a: [1, 2\nb: }\n")


def tree(top):
    out = {}
    for d, _, names in os.walk(top):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, top)] = f.read()
        if d != top and not names:
            out[os.path.relpath(d, top) + "/"] = b""
    return out


def area(tag):
    """A fresh copy of the data, with a working and an output directory."""
    top = pipe.fresh(os.path.join(_dir, f"a{os.getpid()}{tag}"))
    shutil.copytree(os.path.join(_dir, "data"), os.path.join(top, "data"))
    for d in ("cwd", "out", "cwd/sub"):
        os.makedirs(os.path.join(top, d))
    for c in ("conf", "plot", "bad", "nomap", "notyaml"):
        shutil.copy(os.path.join(_dir, c + ".yml"), top)
    return top


def program(argv, cwd, err):
    """main() with these arguments, in a child process: (exit status or exception, output)."""
    def go():
        import io, contextlib
        os.chdir(os.path.join(_dir, "start"))
        from riptide.pipeline import pipeline
        os.chdir(cwd)
        fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 2)
        sys.stderr = os.fdopen(2, "w", buffering=1, closefd=False)
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        root.setLevel(logging.WARNING)
        sys.argv = ["rffa"] + argv
        out = io.StringIO()
        with contextlib.redirect_stdout(out), pipe.use_pool(pipe.InlinePool):
            try:
                pipeline.main()
                st = ("ok", 0)
            except SystemExit as e:
                st = ("exit", e.code)
            except Exception as e:
                st = ("raised", f"{type(e).__name__}: {e}"[:300])
        logging.shutdown()
        return st, out.getvalue()
    return pipe.in_child(go, timeout=120.0)


_ref = {}


def reference(name):
    """Products of the same run through the programming interface."""
    if name not in _ref:
        top = area("ref")

        def go():
            from riptide.pipeline.pipeline import Pipeline
            logging.disable(logging.CRITICAL)
            with pipe.use_pool(pipe.InlinePool):
                Pipeline(conf(name == "plot")).process([os.path.join(top, "data", f + ".inf") for f in FILES], os.path.join(top, "out"))
        pipe.in_child(go, timeout=120.0)
        got = tree(os.path.join(top, "out"))
        if not {"peaks.csv", "clusters.csv", "candidates.csv", "candidate_0000.json", "candidate_0001.json"} <= set(got):
            raise Violation(f"the run through the programming interface wrote {sorted(got)}")
        _ref[name] = normal(got, top)
        shutil.rmtree(top)
    return _ref[name]


def normal(files, top):
    """File contents with the (random) location removed; images are only required to be there."""
    return {k: (b"" if k.endswith(".png") else v.replace(os.path.realpath(top).encode(), b"TOP").replace(top.encode(), b"TOP")) for k, v in files.items()}


def diff(want, got):
    if sorted(want) != sorted(got):
        return f"files {sorted(got)} instead of {sorted(want)}"
    return pipe.same_content(want, got)


LINE = re.compile(r"\b(DEBUG|INFO|WARNING|ERROR|CRITICAL)\b")


def check_log(text, level, timings, msg):
    lines = [l for l in text.split("\n") if LINE.search(l)]
    times = [l for l in lines if "runtime" in l]
    need(bool(times) == timings, "%s: %d lines with run times: %s", msg, len(times), times[:1])
    lv = [LINE.search(l).group(1) for l in lines if "runtime" not in l]
    rank = {n: i for i, n in enumerate(["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"])}
    low = [l for l in lines if "runtime" not in l and rank[LINE.search(l).group(1)] < rank[level]]
    need(not low, "%s: line below the selected level: %s", msg, low[:1])
    if level != "WARNING":
        need(level in lv, "%s: no line of level %s in the log", msg, level)


def ev_options(case, ctx):
    top = area("o")
    cwd, out = os.path.join(top, "cwd"), os.path.join(top, "out")
    form = case["form"]
    data = [os.path.join(top, "data", FILES[i] + ".inf") for i in case.get("order", (0, 1, 2))]
    if case.get("rel"):
        data = [os.path.relpath(p, cwd) for p in data]
    opts = []

    def opt(short, long, value):
        opts.append([short, value] if form % 3 == 0 and short else [long, value] if form % 3 == 1 else [f"{long}={value}"])
    cfg = case.get("conf", "conf")
    opt("-c", "--config", os.path.join(top, cfg + ".yml"))
    od = case["outdir"]
    target = {None: cwd, ".": cwd, "rel": os.path.join(cwd, "sub"), "up": out, "abs": out, "slash": out}[od]
    if od is not None:
        opt("-o", "--outdir", {".": ".", "rel": "sub", "up": "../out", "abs": out, "slash": out + "/"}[od])
    if case["level"]:
        opt(None, "--log-level", case["level"])
    if case["timings"]:
        opts.append(["--log-timings"])
    lf = case["logfile"]
    lpath = {None: None, "new": os.path.join(cwd, "log.txt"), "old": os.path.join(top, "old.log"), "out": os.path.join(target, "run.log"), "sub": os.path.join(cwd, "sub", "x.log")}[lf]
    if lf == "old":
        with open(lpath, "w") as f:
            f.write("leftover of an old log\n" * 50000)
    if lpath:
        opt("-f", "--logfile", "log.txt" if lf == "new" else lpath)
    k = form % (len(opts) + 1)
    argv = [a for o in opts[:k] for a in o]
    argv = argv + data + [a for o in opts[k:] for a in o]
    # files an earlier run of another configuration may have left: not ours, not touched
    keep = os.path.join(target, "notes.txt")
    with open(keep, "w") as f:
        f.write("keep")
    before = tree(top)
    err = os.path.join(_dir, f"err{os.getpid()}.txt")
    st, so = program(argv, cwd, err)
    msg = "rffa " + " ".join(a.replace(top, "TOP") for a in argv)
    need(st == ("ok", 0), "%s: ended with %s", msg, st)
    need(not os.listdir(os.path.join(_dir, "start")), "%s: written in a former working directory: %s", msg, os.listdir(os.path.join(_dir, "start")))
    after = tree(top)
    with open(err, errors="replace") as f:
        text = f.read()
    rel = os.path.relpath(target, top)
    made = {p: v for p, v in after.items() if p not in before}
    made.pop(rel + "/", None)
    lrel = os.path.relpath(lpath, top) if lpath else None
    log = after.get(lrel) if lrel else None
    gone = [p for p in before if p not in after and not p.endswith("/")]
    changed = [p for p in before if p in after and after[p] != before[p] and p != lrel]
    need(not gone and not changed, "%s: removed %s, modified %s", msg, gone, changed)
    prods = {os.path.relpath(p, rel): v for p, v in made.items() if p != lrel and os.path.dirname(p) == rel}
    other = [p for p in made if p != lrel and os.path.dirname(p) != rel]
    need(not other, "%s: files written elsewhere: %s", msg, other)
    d = diff(reference(cfg), normal(prods, top))
    need(d is None, "%s: products: %s", msg, d)
    level = case["level"] or "DEBUG"
    check_log(text, level, case["timings"], msg + " (standard error)")
    if lrel:
        need(log is not None, "%s: no log file", msg)
        lt = log.decode(errors="replace")
        need("leftover" not in lt, "%s: the old log was not replaced", msg)
        check_log(lt, level, case["timings"], msg + " (log file)")
        a = [l for l in lt.split("\n") if LINE.search(l)]
        b = [l for l in text.split("\n") if LINE.search(l)]
        need(a == b, "%s: the log file has %d lines, standard error %d", msg, len(a), len(b))
    shutil.rmtree(top)
    ctx.ev(1)
    ctx.outcome(repr(case))


WRONG = {
    "noconfig": (["@OUT", "@FILES"], 2), "nofiles": (["@CONF", "@OUT"], 2), "nothing": ([], 2),
    "level": (["@CONF", "@OUT", "--log-level", "LOUD", "@FILES"], 2), "lower": (["@CONF", "@OUT", "--log-level", "debug", "@FILES"], 2), "error": (["@CONF", "@OUT", "--log-level=ERROR", "@FILES"], 2),
    "outdir": (["@CONF", "-o", "@TOP/absent", "@FILES"], 2), "outfile": (["@CONF", "-o", "@TOP/conf.yml", "@FILES"], 2), "outsub": (["@CONF", "-o", "@TOP/absent/deeper", "@FILES"], 2), "outempty": (["@CONF", "-o", "", "@FILES"], 2),
    "unknown": (["@CONF", "@OUT", "--frobnicate", "@FILES"], 2), "missingvalue": (["@FILES", "@OUT", "-c"], 2), "timingsvalue": (["@CONF", "@OUT", "--log-timings=3", "@FILES"], 2),
    "configabsent": (["-c", "@TOP/absent.yml", "@OUT", "@FILES"], None), "configdir": (["-c", "@TOP/cwd", "@OUT", "@FILES"], None), "badvalue": (["-c", "@TOP/bad.yml", "@OUT", "@FILES"], None),
    "nomap": (["-c", "@TOP/nomap.yml", "@OUT", "@FILES"], None), "notyaml": (["-c", "@TOP/notyaml.yml", "@OUT", "@FILES"], None),
    "fileabsent": (["@CONF", "@OUT", "@FILES", "@TOP/data/absent.inf"], None), "wrongtype": (["@CONF", "@OUT", "@FILES", "@TOP/conf.yml"], None), "datafile": (["@CONF", "@OUT", "@TOP/data/f0.dat"], None),
    "help": (["--help"], 0), "version": (["--version"], 0), "versionrest": (["@CONF", "@OUT", "--version", "@FILES"], 0),
}


def ev_wrong(case, ctx):
    top = area("w")
    argv = []
    tmpl, code = WRONG[case["what"]]
    for a in tmpl:
        argv += {"@CONF": ["-c", os.path.join(top, "conf.yml")], "@OUT": ["-o", os.path.join(top, "out")], "@FILES": [os.path.join(top, "data", f + ".inf") for f in FILES]}.get(a, [a.replace("@TOP", top)])
    before = tree(top)
    st, so = program(argv, os.path.join(top, "cwd"), os.path.join(_dir, f"err{os.getpid()}.txt"))
    msg = "rffa " + " ".join(a.replace(top, "TOP") for a in argv)
    if code is None:
        need(st[0] == "raised" or (st[0] == "exit" and st[1] not in (0, None)), "%s: ended with %s instead of an error", msg, st)
    else:
        need(st[0] == "exit" and (st[1] or 0) == code, "%s: ended with %s instead of exit status %d", msg, st, code)
    if case["what"].startswith("version"):
        import riptide
        need(riptide.__version__ in so, "%s: printed %r", msg, so[:200])
    d = diff(before, tree(top))
    need(d is None, "%s: files written or changed: %s", msg, d)
    shutil.rmtree(top)
    ctx.ev(1)
    ctx.outcome(case["what"])


def spaces(tier):
    deep = tier == "thorough"
    opts = []
    k = 0
    for level, timings, lf, od in itertools.product([None] + LEVELS, (False, True), (None, "new", "old", "out"), (None, ".", "rel", "up", "abs", "slash")):
        forms = range(6) if deep else [k]
        for f in forms:
            opts.append(dict(level=level, timings=timings, logfile=lf, outdir=od, form=f, rel=bool(k % 2), conf="plot" if k % 48 == 5 else "conf"))
        k += 1
    orders = [dict(level="INFO", timings=False, logfile=None, outdir="abs", form=f, rel=r, order=o) for i, o in enumerate(itertools.permutations(range(3))) for r in (False, True) for f in (range(3) if deep else [i % 3])]
    return [Space("options", opts, ev_options, "all combinations of options"), Space("orders", orders, ev_options, "all orders of the input files"),
            Space("wrong", [dict(what=w) for w in WRONG], ev_wrong, "wrong arguments")]
