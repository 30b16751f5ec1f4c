"""C31: calls made at the same time from two threads give what they give one after another.

Two real threads run under a controlled scheduler (mc/native/sched.c): only one of them runs at a time, and it can be
made to hand over before any line (or, in the thorough tier, any bytecode instruction) of the library's Python code and,
where compiled code runs without the interpreter lock, before any of its basic blocks."""
import contextlib, ctypes, io, itertools, os, subprocess, sys, threading
import numpy as np
from .. import fixtures as fx
from ..engine import Space, HarnessError, Violation, need, digest
from . import c09

PROP = "C31"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the interleavings of two real threads up to a preemption bound, under a controlled scheduler (stateless model checking)"
BUILD_FLAGS = "-fsanitize-coverage=trace-pc"
RULE = ("ordered pairs of public calls on common, read-only argument objects; for each pair, every schedule in which the first call is preempted before one scheduling point, the "
        "second runs to the end (or to one of its own points), then the first resumes; a scheduling point is the first passage (thorough: the first two) at each source line, or bytecode "
        "instruction, of the library, or basic block of its compiled code when that runs without the interpreter lock; both results must be bit-identical to those of "
        "the calls alone and the arguments unchanged")
ASSUMPTIONS = ["threads switch only at the scheduling points (while the interpreter lock is held, compiled code is atomic)", "calls that draw random numbers or use matplotlib's current figure are excluded: "
               "both are process-wide by design", "a thread that sleeps for 20 ms, or makes no progress for a second, is taken to wait for the other one"]
LIB = None
CALLS = None


def before_import():
    """Must be loaded before the instrumented extension, which calls it."""
    global LIB
    from ..build import scratch
    d = scratch("riptide-c31-")
    so = os.path.join(d, "sched.so")
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "sched.c")
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, src, "-lpthread", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise HarnessError(r.stderr)
    LIB = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
    LIB.sched_point.argtypes = [ctypes.c_size_t]
    LIB.sched_point.restype = None
    LIB.sched_reset.argtypes = [ctypes.c_long] * 5
    for f in (LIB.sched_count, LIB.sched_native, LIB.sched_forced):
        f.restype = ctypes.c_long


ROOT = None


def prepare(src):
    global ROOT
    ROOT = os.path.join(os.path.realpath(src), "riptide") + os.sep
    c09.prepare(src)
    for k in (1, 2):
        d = os.path.join(c09._dir, f"sub{k}")
        os.mkdir(d)
        fx.write_presto(d, "rel", np.arange(60, dtype=np.float32) * k, 0.01, k)
        fx.write_sigproc(d, "rel", np.arange(60, dtype=np.float32) * -k, 0.01, k)
    calls()
    os.chdir(c09._dir)
    warm_up()


def warm_up():
    """The interpreter delivers instruction events only some time after they were first asked for."""
    def glob(frame, event, arg):
        frame.f_trace_opcodes = True
        return lambda *a: None
    for _ in range(2):
        sys.settrace(glob)
        (lambda: 1)()
        sys.settrace(None)


def calls():
    global CALLS
    if CALLS is not None:
        return CALLS
    import riptide
    from riptide.apps.rseek import get_parser, run_program
    C = dict(c09.calls())
    for n in ("signal", "ts_generate", "cand_plot", "rseek", "rseek_none", "stored_a", "stored_b"):
        del C[n]
    D = c09._dir

    def rseek(smin):
        return lambda w: run_program(get_parser().parse_args(["-f", "presto", "--Pmin", "0.6", "--Pmax", "2.0", "--bmin", "32", "--bmax", "36", "--smin", str(smin), os.path.join(D, "a_DM10.0.inf")]))

    def inplace(w):
        t = w.ts.copy()
        t.deredden(2.0, minpts=21, inplace=True)
        t.normalise(inplace=True)
        t.downsample(2.0, inplace=True)
        return t

    def inplace_twin(w):
        t = w.ts_int.copy()
        t.downsample(3.0, inplace=True)
        t.normalise(inplace=True)
        return t

    def stored(val):
        def g(w):
            x = (w.x[:64] * 0 + val).astype(np.float32)
            p = os.path.join(D, f"own{os.getpid()}_{val}")
            fx.write_presto(D, os.path.basename(p), x, 0.01, val)
            fx.write_sigproc(D, os.path.basename(p), x, 0.01, val)
            riptide.save_json(p + ".json", {"v": val, "x": x, "meta": w.meta["extra"]})
            TS = riptide.TimeSeries
            return [(t.data, t.tsamp, t.metadata["dm"]) for t in (TS.from_presto_inf(p + ".inf"), TS.from_sigproc(p + ".tim"))], riptide.load_json(p + ".json")
        return g
    def relative(where):
        def g(w):
            TS = riptide.TimeSeries
            return [(t.data, t.metadata["dm"]) for t in (TS.from_presto_inf(os.path.join(where, "rel.inf")), TS.from_sigproc(os.path.join(where, "rel.tim")),
                                                         TS.from_binary(os.path.join(where, "rel.dat"), 0.5))]
        return g
    C.update(relative=relative("sub1"), relative_twin=relative("sub2"), rseek=rseek(7.0), rseek_twin=rseek(1000.0), inplace=inplace, inplace_twin=inplace_twin, own_files=stored(3.0), own_files_twin=stored(4.0))
    CALLS = C
    return C


def run(name, w):
    try:
        return fx.canon(calls()[name](w))
    except Exception as e:
        if name not in c09.EXPECT_ERROR:
            return ("unexpected", type(e).__name__, str(e)[:300])
        return fx.canon(e)


_sites = {}


def tracer(opcodes):
    point, sites, root = LIB.sched_point, _sites, ROOT
    ok = {}

    def local(frame, event, arg):
        if event == "line" and not opcodes:
            k = (frame.f_code, frame.f_lineno)
        elif event == "opcode" and opcodes:
            k = (frame.f_code, frame.f_lasti)
        else:
            return local
        s = sites.get(k)
        if s is None:
            s = sites[k] = len(sites) + 1
        point(s)
        return local

    def glob(frame, event, arg):
        c = frame.f_code
        b = ok.get(c)
        if b is None:
            b = ok[c] = os.path.realpath(c.co_filename).startswith(root)
        if not b:
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local
    return glob


def together(names, w, switches, limit, opcodes):
    """Runs the calls in one thread each; switches: (a0, a1, b0, b1). Returns results, numbers of points, ..."""
    out = [None, None]
    LIB.sched_reset(limit, *switches)
    tr = tracer(opcodes)

    def body(t):
        LIB.sched_begin(t)
        try:
            sys.settrace(tr)
            try:
                r = run(names[t], w)
            finally:
                sys.settrace(None)
            out[t] = r
        finally:
            LIB.sched_end()
    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(2)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(60)
        if t.is_alive():
            raise Violation(f"{names}: the two calls block each other (switches {switches})")
    return out, [LIB.sched_count(0), LIB.sched_count(1)], LIB.sched_native(0), LIB.sched_forced()


_alone = {}


def alone(name):
    """Result of the call alone, in a fresh process."""
    if name not in _alone:
        import pickle
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            with os.fdopen(wfd, "wb") as f:
                with contextlib.redirect_stdout(io.StringIO()):
                    f.write(digest(run(name, c09.World())))
            os._exit(0)
        os.close(wfd)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        need(d, "%s alone: the interpreter died", name)
        _alone[name] = d
    return _alone[name]


def pair(a, b, case, ctx):
    limit, opcodes, bound = case["limit"], case["opcodes"], case["bound"]
    w = c09.World()
    base = fx.canon(w.args())
    first = True
    n = [1, 1]

    def check(sw):
        nonlocal first, n
        out, cnt, native, forced = together([a, b], w, sw, limit, opcodes)
        for k, (name, o) in enumerate(zip((a, b), out)):
            need(digest(o) == alone(name), "%s and %s at the same time, the first preempted before its points %s, the second before %s: %s gives another result than alone%s",
                 a, b, sw[:2], sw[2:], name, f": {o[1:]}" if o[0] == "unexpected" else "")
        ctx.ev(1)
        ctx.state((a, b, sw))
        ctx.transitions += sum(cnt)
        ctx.extra["points_in_compiled_code"] += native
        ctx.extra["blocked_schedules"] += int(bool(forced))
        if first:
            first, n = False, cnt
            ctx.outcome((a, b, digest(out[0]), digest(out[1])))
    with contextlib.redirect_stdout(io.StringIO()):
        check((-1, -1, -1, -1))
        na, nb = n
        for i in range(na):
            check((i, -1, -1, -1))
        if bound >= 2:
            for i in range(na):
                for j in range(nb):
                    check((i, -1, j, -1))
    need(os.getcwd() == os.path.realpath(c09._dir), "%s and %s at the same time changed the working directory", a, b)
    need(fx.canon(w.args()) == base, "%s and %s at the same time changed their arguments", a, b)
    ctx.traces += 1


def ev(case, ctx):
    for a, b in case["pairs"]:
        pair(a, b, case, ctx)


def family(n):
    return n.replace("_twin2", "").replace("_twin3", "").replace("_twin", "")


# calls of different functions which go through the same lower layers
GROUPS = [
    ["search_raw", "search_bad", "ts_normalise", "ts_downsample", "downsample", "ts_deredden_twin", "inplace_twin", "width_twin"],
    ["find_peaks_opts", "find_peaks", "cluster1d", "cluster_twin", "htest", "pg_props"],
    ["ts_fold_subints", "ts_fold_one", "ts_deredden", "ts_downsample", "cand_profile", "ts_copy", "boxcar_snr", "ffa1"],
    ["sigproc_override", "sigproc_unknown", "binary", "npy", "sigproc_extra"],
    ["metadata", "metadata_empty", "metadata_bad", "ts_init_meta", "ts_from_array", "ts_from_array_copy", "ts_props", "ts_copy"],
    ["ffa1", "ffa2_twin", "boxcar_snr_std", "downsample64", "signal_quiet", "ffafreq", "width_trials", "cluster1d"],
]


def spaces(tier):
    names = sorted(calls())
    fam = {}
    for n in names:
        fam.setdefault(family(n), []).append(n)
    same = [(a, b) for f in fam.values() for a in f for b in f]
    near = [p for p in dict.fromkeys((a, b) for g in GROUPS for a in g for b in g if a != b) if p not in same]
    mk = lambda pairs, **k: [dict(k, pairs=[p]) for p in pairs]
    sp = [Space("same", mk(same, limit=1, opcodes=False, bound=1), ev, "calls of the same function, with the same and with other arguments; one preemption, at every line", batch=1, timeout=400),
          Space("near", mk(near, limit=1, opcodes=False, bound=1), ev, "calls of different functions using the same lower layers; one preemption, at every line", batch=1, timeout=400)]
    if tier == "thorough":
        done = set(same + near)
        sp.append(Space("all", mk([(a, b) for a in names for b in names if (a, b) not in done], limit=1, opcodes=False, bound=1), ev, "all other ordered pairs of calls; one preemption, at every line", batch=1, timeout=1200))
        sp.append(Space("instructions", mk(same + near, limit=1, opcodes=True, bound=1), ev, "one preemption, at every bytecode instruction", batch=1, timeout=1200))
        cheap = [p for p in same + near if not any(x in p[0] + p[1] for x in ("presto", "rseek", "dmiter", "own_files", "json", "sigproc_plain", "sigproc8", "md_"))]
        sp.append(Space("two", mk(cheap, limit=1, opcodes=False, bound=2), ev, "one preemption of each call, at every pair of lines (calls that only compute)", batch=1, timeout=2400))
        sp.append(Space("repeated", mk(same, limit=3, opcodes=False, bound=1), ev, "one preemption, at the first three passages at every line", batch=1, timeout=1200))
    return sp
