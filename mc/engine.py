"""Exhaustive case exploration over the real code, sharded over forked workers.

A check is a list of Space objects.  A Space enumerates a finite, deterministic, ordered set of
JSON-able cases (simplest first) and evaluates each one against the implementation and an
independent reference.  Evaluation raises Violation (or lets any unexpected exception of the code
under test escape) if the property does not hold.  The engine enumerates *every* case, notices
workers killed by a signal or stuck, keeps the violation of lowest index, and writes a replay file.
"""
import collections, hashlib, itertools, json, mmap, os, pickle, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 150.0


class Violation(Exception):
    def __init__(self, msg=""):
        msg = str(msg)
        if len(msg) > 6000:
            msg = msg[:4000] + f" [... {len(msg) - 5500} characters ...] " + msg[-1500:]
        super().__init__(msg)


class HarnessError(Exception):
    """The machinery itself is broken: exit status 2."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_raises(excs, fn, what):
    """fn() must raise one of excs (an exception class or tuple)."""
    try:
        r = fn()
    except excs:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {excs}, got {type(e).__name__}: {e}")
    raise Violation(f"{what}: expected {excs}, but it returned {str(r)[:200]!r}")


class Ctx:
    """Counters filled by evaluators; merged over workers."""
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.outcomes = set()      # hashes of distinct observed outcomes
        self.states = set()        # hashes of distinct states (model checking)
        self.transitions = 0
        self.traces = 0
        self.findings = {}         # key -> description
        self.extra = collections.Counter()

    def ev(self, n=1, nontrivial=None):
        self.evaluations += n
        self.nontrivial += n if nontrivial is None else int(nontrivial)

    def outcome(self, obj):
        if len(self.outcomes) < 400000:
            self.outcomes.add(digest(obj))

    def state(self, obj):
        self.states.add(digest(obj))

    def finding(self, key, msg):
        self.findings.setdefault(key, msg)

    def merge(self, o):
        self.evaluations += o.evaluations
        self.nontrivial += o.nontrivial
        self.outcomes |= o.outcomes
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        self.extra.update(o.extra)


def digest(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


class Space:
    def __init__(self, name, cases, evaluate, note="", timeout=CASE_TIMEOUT, setup=None, nproc=None, batch=None):
        self.name, self._cases, self.evaluate, self.note = name, cases, evaluate, note
        self.timeout, self.setup, self.nproc = timeout, setup, nproc
        self.batch = batch

    def cases(self, tier):
        c = self._cases(tier) if callable(self._cases) else self._cases
        return c if isinstance(c, list) else list(c)


# ------------------------------------------------------------------ evaluation of one case

def eval_case(space, case, ctx):
    """Returns None or an error message."""
    try:
        space.evaluate(case, ctx)
        return None
    except Violation as v:
        return str(v)
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return f"unexpected {type(e).__name__}: {e}\n{tb}"


def _worker(space, cases, order, nextidx, curslot, stopflag, wfd, fromi):
    """Runs in a forked child."""
    ctx = Ctx()
    viols = []
    status = "ok"
    try:
        if space.setup:
            space.setup()
        n = len(cases)
        batch = space.batch or max(1, min(64, n // (NPROC * 8) or 1))
        while not stopflag.value:
            with nextidx.get_lock():
                i0 = nextidx.value
                nextidx.value = min(n, i0 + batch)
            if i0 >= n:
                break
            for i in range(i0, min(n, i0 + batch)):
                curslot.set(i)
                msg = eval_case(space, cases[i], ctx)
                if msg is not None:
                    viols.append((i, msg))
                    stopflag.value = 1
                    break
                if stopflag.value:
                    break
        curslot.set(-1)
    except HarnessError as e:
        status = "harness: " + str(e)
    except BaseException:
        status = "harness: " + traceback.format_exc()
    data = pickle.dumps((status, ctx, viols))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


class _Slot:
    """One (index, start time) record per worker in shared memory."""
    def __init__(self, mm, k):
        self.mm, self.k = mm, k

    def set(self, i):
        struct.pack_into("<qd", self.mm, self.k * 16, i, time.time())

    def get(self):
        return struct.unpack_from("<qd", self.mm, self.k * 16)


def run_isolated(space, case, timeout):
    """Evaluates one case in a fresh forked child: (kind, message, ctx)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if space.setup:
                space.setup()
            ctx = Ctx()
            msg = eval_case(space, case, ctx)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((msg, ctx)))
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    deadline = time.time() + timeout
    import select
    while True:
        left = deadline - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "hang", f"no result within {timeout:.0f} s", None
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "signal", f"the interpreter was killed by signal {signal.Signals(os.WTERMSIG(st)).name}", None
    if os.WEXITSTATUS(st):
        return "exit", f"the interpreter exited with status {os.WEXITSTATUS(st)}", None
    msg, ctx = pickle.loads(data)
    return ("violation" if msg is not None else "ok"), msg, ctx


def run_space(space, tier, ctx):
    """Explores one space. Returns (ncases, violation or None, completed)."""
    import multiprocessing as mp
    cases = space.cases(tier)
    n = len(cases)
    if n == 0:
        raise HarnessError(f"space {space.name} is empty")
    nproc = min(space.nproc or NPROC, n)
    fork = mp.get_context("fork")
    nextidx = fork.Value("q", 0)
    stopflag = fork.Value("b", 0)
    mm = mmap.mmap(-1, 16 * nproc)
    slots = [_Slot(mm, k) for k in range(nproc)]
    procs = {}
    viols = []

    def spawn(k):
        slots[k].set(-1)
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for (_, rr, _b) in procs.values():
                    try:
                        os.close(rr)
                    except OSError:
                        pass
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _worker(space, cases, None, nextidx, slots[k], stopflag, w, 0)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs[k] = (pid, r, bytearray())

    def suspect(i, why):
        """A worker died or hung at case i: confirm in isolation."""
        kind, msg, c2 = run_isolated(space, cases[i], space.timeout)
        if kind == "ok":
            return None
        return (i, f"{why}; alone: {msg}" if kind != "violation" else msg)

    for k in range(nproc):
        spawn(k)
    import select
    deaths = 0
    while procs:
        rd, _, _ = select.select([p[1] for p in procs.values()], [], [], 1.0)
        now = time.time()
        for k, (pid, r, buf) in list(procs.items()):
            done = False
            if r in rd:
                b = os.read(r, 1 << 20)
                if b:
                    buf += b
                else:
                    done = True
            i, t = slots[k].get()
            if not done and i >= 0 and now - t > space.timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del procs[k]
                v = suspect(i, f"no result within {space.timeout:.0f} s")
                deaths += 1
                if v:
                    viols.append(v)
                    stopflag.value = 1
                elif deaths > 3:
                    raise HarnessError(f"space {space.name}: repeated hangs that do not reproduce alone (case {i})")
                else:
                    spawn(k)
                continue
            if done:
                os.close(r)
                _, st = os.waitpid(pid, 0)
                del procs[k]
                if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) or not buf:
                    sig = signal.Signals(os.WTERMSIG(st)).name if os.WIFSIGNALED(st) else f"exit {os.WEXITSTATUS(st)}"
                    deaths += 1
                    if i >= 0:
                        v = suspect(i, f"the interpreter died ({sig})")
                        if v:
                            viols.append(v)
                            stopflag.value = 1
                            continue
                        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                            viols.append((i, f"the interpreter died ({sig}) at this case after earlier ones (history dependent memory corruption)"))
                            stopflag.value = 1
                            continue
                    if deaths > 3:
                        raise HarnessError(f"space {space.name}: workers die ({sig})")
                    # retry what this worker had not finished: simplest sound choice is all cases again
                    nextidx.value = 0
                    spawn(k)
                    continue
                status, c2, vs = pickle.loads(bytes(buf))
                if status != "ok":
                    raise HarnessError(f"space {space.name}: {status}")
                ctx.merge(c2)
                viols.extend(vs)
    mm.close()
    viol = min(viols, key=lambda v: v[0]) if viols else None
    return cases, viol


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> <text>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                f = line.split(" ", 3)
                if f[1] == f"property={prop}" and f[2].startswith("key="):
                    out[f[2][4:]] = f[3]
    return out


# ------------------------------------------------------------------ driver

def jsonable(o, depth=0):
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if hasattr(o, "item"):
        return o.item()
    return repr(o)


def write_replay(prop, space, case, msg, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "space": space, "case": jsonable(case), "message": msg, "tier": tier,
            "replay_cmd": f"/opt/venv/bin/python run.py {prop} --replay <this file>"}
    h = hashlib.sha1(json.dumps([space, body["case"]], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run_check(mod, tier, seed):
    """mod has PROP, LEVEL, RULE, ASSUMPTIONS, spaces(tier). Returns exit status."""
    t0 = time.time()
    prop = mod.PROP
    total = Ctx()
    per = []
    samples = []
    violation = None
    exhaustive = True
    spaces = mod.spaces(tier)
    for sp in spaces:
        ts = time.time()
        ctx = Ctx()
        cases, v = run_space(sp, tier, ctx)
        total.merge(ctx)
        per.append({"space": sp.name, "note": sp.note, "cases": len(cases), "evaluations": ctx.evaluations,
                    "nontrivial": ctx.nontrivial, "distinct_outcomes": len(ctx.outcomes),
                    "states": len(ctx.states), "transitions": ctx.transitions, "traces": ctx.traces,
                    "wall_s": round(time.time() - ts, 2), **{k: v2 for k, v2 in ctx.extra.items()}})
        for c in (cases[0], cases[len(cases) // 2], cases[-1]):
            s = json.dumps(jsonable(c))
            samples.append({"space": sp.name, "case": jsonable(c) if len(s) < 600 else s[:600] + "..."})
        sys.stderr.write(f"[{prop}] {sp.name}: {len(cases)} cases, {ctx.evaluations} evaluations, "
                         f"{len(ctx.outcomes)} outcomes, {len(ctx.states)} states, {time.time() - ts:.1f}s\n")
        if v is not None:
            i, msg = v
            violation = (sp.name, cases[i], msg)
            exhaustive = False
            break

    known = known_findings(prop)
    for key, msg in sorted(total.findings.items()):
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {key}: {known[key]}")
        elif violation is None:
            violation = ("finding", {"key": key}, msg)
    nviol = 0
    if violation is not None:
        nviol = 1
        path = write_replay(prop, violation[0], violation[1], violation[2], tier)
        sys.stderr.write(f"[{prop}] space {violation[0]}: {violation[2]}\ncase: {json.dumps(jsonable(violation[1]))[:2000]}\n")
        print(f"VIOLATION property={prop} replay={path}")

    cov = {"exhaustive": exhaustive, "spaces": per, "samples": samples[:24], "rule": mod.RULE,
           "distinct_outcomes_observed": len(total.outcomes)}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.traces,
                   evaluations=total.evaluations)
    else:
        cov.update(evaluations=total.evaluations, distinct_nontrivial=total.nontrivial)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    sys.stdout.flush()
    return 1 if nviol else 0
