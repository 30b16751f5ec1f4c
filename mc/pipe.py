"""Pipeline harness: configurations, data sets, controlled process pool, reading of the products."""
import contextlib, copy, csv, io, itertools, json, math, os, pickle, shutil, signal, struct, sys
import multiprocessing
import numpy as np
from . import fixtures as fx
from .engine import HarnessError


# ---------------------------------------------------------------- configuration

def make_range(pmin=0.1, pmax=0.4, bmin=10, bmax=12, smin=6.5, cbins=10, subints=4, name="r", **extra):
    fs = dict(period_min=pmin, period_max=pmax, bins_min=bmin, bins_max=bmax)
    fs.update(extra)
    return dict(name=name, ffa_search=fs, find_peaks=dict(smin=smin), candidates=dict(bins=cbins, subints=subints))


def make_conf(ranges=None, processes=2, fmt="presto", band=(None, None, None), dmselect=(None, None, None), dered=(0.5, 11), radius=0.2, harm=None, filters=None, plot=False):
    return dict(processes=processes, data=dict(format=fmt, fmin=band[0], fmax=band[1], nchans=band[2]),
                dmselect=dict(min=dmselect[0], max=dmselect[1], dmsinb_max=dmselect[2]),
                dereddening=dict(rmed_width=dered[0], rmed_minpts=dered[1]),
                ranges=ranges if ranges is not None else [make_range()],
                clustering=dict(radius=radius),
                harmonic_flagging=dict(denom_max=100, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0, **{}) if harm is None else dict(harm),
                candidate_filters=dict(dm_min=None, snr_min=None, remove_harmonics=False, max_number=None, **{}) if filters is None else dict(dict(dm_min=None, snr_min=None, remove_harmonics=False, max_number=None), **filters),
                plot_candidates=plot)


# ---------------------------------------------------------------- pools

class _Async:
    def __init__(self, fn):
        self.ok, self.val = True, None
        try:
            self.val = fn()
        except Exception as e:
            self.ok, self.val = False, e

    def get(self, timeout=None):
        if not self.ok:
            raise self.val
        return self.val

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


class BasePool:
    """Interface of multiprocessing.Pool over one primitive, run_tasks(list of thunk tuples) ->
    list of (index, ok, value) in completion order."""
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.processes = int(processes) if processes is not None else (os.cpu_count() or 1)
        if self.processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._init = (initializer, initargs)
        self._closed = False

    def run_tasks(self, tasks):
        raise NotImplementedError

    def _chunks(self, n, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(n, self.processes * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        return [list(range(a, min(n, a + chunksize))) for a in range(0, n, chunksize)]

    def _collect(self, fn, argslist, chunksize):
        if self._closed:
            raise ValueError("Pool not running")
        argslist = list(argslist)
        if not argslist:
            return [], []
        chunks = self._chunks(len(argslist), chunksize)
        done = self.run_tasks([[(fn, argslist[i]) for i in c] for c in chunks])
        out, order, err = {}, [], None
        for ci, ok, val in done:
            if not ok:
                if err is None:
                    err = val
                continue
            for i, v in zip(chunks[ci], val):
                out[i] = v
                order.append(i)
        if err is not None:
            raise err
        return [out[i] for i in range(len(argslist))], [out[i] for i in order]

    def map(self, fn, it, chunksize=None):
        return self._collect(fn, [(a,) for a in it], chunksize)[0]

    def starmap(self, fn, it, chunksize=None):
        return self._collect(fn, [tuple(a) for a in it], chunksize)[0]

    def imap(self, fn, it, chunksize=1):
        return iter(self._collect(fn, [(a,) for a in it], chunksize)[0])

    def imap_unordered(self, fn, it, chunksize=1):
        return iter(self._collect(fn, [(a,) for a in it], chunksize)[1])

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._cb(_Async(lambda: self.map(fn, it, chunksize)), callback, error_callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._cb(_Async(lambda: self.starmap(fn, it, chunksize)), callback, error_callback)

    def _cb(self, r, cb, ecb):
        if r.ok and cb:
            cb(r.val)
        if not r.ok and ecb:
            ecb(r.val)
        return r

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        import functools
        f = functools.partial(fn, **kwds) if kwds else fn
        return self._cb(_Async(lambda: self._collect(f, [tuple(args)], 1)[0][0]), callback, error_callback)

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True

    def join(self):
        if not self._closed:
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class InlinePool(BasePool):
    """Runs tasks in this process, through pickling, in submission order."""
    def run_tasks(self, tasks):
        out = []
        for i, chunk in enumerate(tasks):
            chunk = pickle.loads(pickle.dumps(chunk))
            try:
                out.append((i, True, pickle.loads(pickle.dumps([f(*a) for f, a in chunk]))))
            except Exception as e:
                out.append((i, False, e))
        return out


def feasible_schedules(k, w):
    """All (assignment, completion order) of k tasks taken in order from a queue by w workers, up to renaming of workers."""
    out = []

    def partitions(i, nw, cur):
        if i == k:
            yield tuple(cur)
            return
        for a in range(min(nw + 1, w)):
            cur.append(a)
            yield from partitions(i + 1, max(nw, a + 1), cur)
            cur.pop()
    for asg in partitions(0, 0, []):
        cons = []
        for j in range(k):
            prev = [i for i in range(j) if asg[i] == asg[j]]
            if prev:
                cons += [(prev[-1], l) for l in range(j, k)]
        for perm in itertools.permutations(range(k)):
            pos = {t: n for n, t in enumerate(perm)}
            if all(pos[a] < pos[b] for a, b in cons):
                out.append((asg, perm))
    return out


class ScheduledPool(BasePool):
    """Tasks run in forked worker processes; assignment and completion order come from the class
    attribute 'plan': a function (pool number, number of tasks, processes) -> (assignment, order)."""
    plan = None
    count = 0
    log = []

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        cls = type(self)
        self.number = cls.count
        cls.count += 1
        self.workers = {}

    def _worker(self, w):
        if w in self.workers:
            return self.workers[w]
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr); os.close(pw)
                for (_, r, x) in self.workers.values():
                    os.close(r); os.close(x)
                fin, fout = os.fdopen(cr, "rb"), os.fdopen(cw, "wb")
                if self._init[0] is not None:
                    self._init[0](*self._init[1])
                while True:
                    h = fin.read(8)
                    if len(h) < 8:
                        os._exit(0)
                    chunk = pickle.loads(fin.read(struct.unpack("q", h)[0]))
                    try:
                        res = (True, [f(*a) for f, a in chunk])
                        data = pickle.dumps(res)
                    except Exception as e:
                        try:
                            data = pickle.dumps((False, e))
                            pickle.loads(data)
                        except Exception:
                            data = pickle.dumps((False, RuntimeError(repr(e))))
                    fout.write(struct.pack("q", len(data)) + data)
                    fout.flush()
            finally:
                os._exit(9)
        os.close(cr); os.close(cw)
        self.workers[w] = (pid, pr, pw)
        return self.workers[w]

    def run_tasks(self, tasks):
        asg, order = type(self).plan(self.number, len(tasks), self.processes)
        # all workers exist before any task runs
        for w in sorted(set(asg)):
            self._worker(w)
        out = []
        for t in order:
            pid, r, x = self._worker(asg[t])
            data = pickle.dumps(tasks[t])
            os.write(x, struct.pack("q", len(data)))
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(x, mv):]

            def rd(n):
                b = b""
                while len(b) < n:
                    c = os.read(r, n - len(b))
                    if not c:
                        raise HarnessError("a scheduled worker died")
                    b += c
                return b
            ok, val = pickle.loads(rd(struct.unpack("q", rd(8))[0]))
            out.append((t, ok, val))
        type(self).log.append((self.number, len(tasks), self.processes, asg, order))
        return out

    def _stop(self):
        for pid, r, x in self.workers.values():
            os.close(x); os.close(r)
            os.waitpid(pid, 0)
        self.workers = {}

    def close(self):
        super().close()
        self._stop()

    def terminate(self):
        super().terminate()
        self._stop()

    def __del__(self):
        try:
            self._stop()
        except Exception:
            pass


@contextlib.contextmanager
def patched(*triples):
    """(object, attribute, value) replaced for the duration."""
    saved = [(o, a, getattr(o, a)) for o, a, _ in triples]
    for o, a, v in triples:
        setattr(o, a, v)
    try:
        yield
    finally:
        for o, a, v in reversed(saved):
            setattr(o, a, v)


def bindings(obj):
    """All (module or class, name) of the riptide package, under which this object is bound."""
    import sys, types
    out = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "riptide" or name.startswith("riptide.")):
            continue
        for k, v in list(vars(mod).items()):
            if v is obj:
                out.append((mod, k))
            elif isinstance(v, type) and getattr(v, "__module__", "").startswith("riptide"):
                for kk, vv in list(vars(v).items()):
                    if vv is obj and (v, kk) not in out:
                        out.append((v, kk))
    return out


def replaced(obj, new):
    """obj replaced by new wherever the riptide package refers to it by name."""
    return patched(*[(o, a, new) for o, a in bindings(obj)])


class _Executor:
    """concurrent.futures.ProcessPoolExecutor over one of the pools: tasks are submitted in batches by map(), one by one otherwise."""
    poolcls = None

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        self.pool = type(self).poolcls(max_workers, initializer, initargs)

    def submit(self, fn, *args, **kwargs):
        import concurrent.futures, functools
        f = concurrent.futures.Future()
        try:
            f.set_result(self.pool.apply(functools.partial(fn, **kwargs) if kwargs else fn, args))
        except Exception as e:
            f.set_exception(e)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self.pool.starmap(fn, list(zip(*its)), chunksize))

    def shutdown(self, wait=True, **k):
        self.pool.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def use_pool(cls):
    """This class in place of the process pools of the standard library, however they are created."""
    import multiprocessing.pool
    import concurrent.futures, concurrent.futures.process as cfp
    real = multiprocessing.pool.Pool
    ex = type("Executor", (_Executor,), {"poolcls": cls})
    rex = cfp.ProcessPoolExecutor
    triples = [(multiprocessing, "Pool", cls), (multiprocessing.pool, "Pool", cls), (concurrent.futures, "ProcessPoolExecutor", ex)]
    triples += [(o, a, cls) for o, a in bindings(real)] + [(o, a, ex) for o, a in bindings(rex)]
    return patched(*triples)


def in_child(fn, timeout=60.0):
    """fn() in a forked process (its result or exception is returned or raised), whose own children
    are ended afterwards: for runs that use the real pool and may leave it behind."""
    import tempfile, time
    fd, path = tempfile.mkstemp(prefix="res", dir=os.environ.get("VERIF_TMP") or None)
    os.close(fd)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = (True, fn())
            except Exception as e:
                res = (False, e)
            try:
                data = pickle.dumps(res)
                pickle.loads(data)
            except Exception:
                data = pickle.dumps((False, RuntimeError(repr(res[1]))))
            with open(path, "wb") as f:
                f.write(data)
            for c in multiprocessing.active_children():
                c.kill()
        finally:
            os._exit(0)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.unlink(path)
            raise TimeoutError(f"no result within {timeout} s")
        time.sleep(0.002)
    data = open(path, "rb").read()
    os.unlink(path)
    if not data:
        raise RuntimeError("the process died")
    ok, val = pickle.loads(data)
    if not ok:
        raise val
    return val


# ---------------------------------------------------------------- injected peaks

@contextlib.contextmanager
def injected(peaks_by_dm, calls=None):
    """The search of a DM trial returns these peaks instead of searching (inline pool)."""
    from riptide.pipeline.worker_pool import WorkerPool
    import riptide

    def load(self, fname):
        loader = getattr(self, "loader", None) or (riptide.TimeSeries.from_presto_inf if str(fname).endswith(".inf") else riptide.TimeSeries.from_sigproc)
        return loader(fname)

    def process_fname(self, fname):
        ts = load(self, fname)
        if calls is not None:
            calls.append(os.path.realpath(fname))
        return list(peaks_by_dm.get(ts.metadata["dm"], []))
    # where files are searched by other code: replace the search itself, the first search range
    # of a file (in a run) reports its peaks
    last = [None]
    init = WorkerPool.__init__

    def new_run(self, *a, **k):
        last[0] = None
        init(self, *a, **k)

    def search(ts, *a, **k):
        return ts, ts

    def peaks(ts, *a, **k):
        f = os.path.realpath(ts.metadata["fname"])
        if f == last[0]:
            return [], {}
        last[0] = f
        if calls is not None:
            calls.append(f)
        return list(peaks_by_dm.get(ts.metadata["dm"], [])), {}
    triples = [(WorkerPool, "__init__", new_run)]
    if hasattr(WorkerPool, "process_fname"):
        triples.append((WorkerPool, "process_fname", process_fname))
    triples += [(o, a, search) for o, a in bindings(riptide.ffa_search)] + [(o, a, peaks) for o, a in bindings(riptide.find_peaks)]
    patch = patched(*triples)
    with use_pool(InlinePool), patch:
        yield


def peak(period=None, freq=None, snr=10.0, dm=0.0, width=2, ducy=0.1, iw=0, ip=0):
    from riptide.peak_detection import Peak
    if freq is None:
        freq = 1.0 / period
    return Peak(period=1.0 / freq, freq=freq, width=width, ducy=ducy, iw=iw, ip=ip, snr=snr, dm=dm)


# ---------------------------------------------------------------- products

def fresh(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def snapshot(outdir):
    """{file name: bytes}"""
    out = {}
    for n in sorted(os.listdir(outdir)):
        with open(os.path.join(outdir, n), "rb") as f:
            out[n] = f.read()
    return out


def read_csv(path):
    with open(path) as f:
        return list(csv.DictReader(f))


def load_cands(outdir):
    from riptide import load_json
    out = {}
    for n in sorted(os.listdir(outdir)):
        if n.startswith("candidate_") and n.endswith(".json"):
            out[n] = load_json(os.path.join(outdir, n))
    return out


def same_content(a, b):
    """Whether two snapshots hold the same products. JSON and CSV are compared parsed if bytes differ."""
    if sorted(a) != sorted(b):
        return f"files {sorted(a)} / {sorted(b)}"
    for n in a:
        if a[n] != b[n]:
            if n.endswith(".json") and json.loads(a[n]) == json.loads(b[n]):
                continue
            if n.endswith(".csv"):
                ra, rb = list(csv.DictReader(io.StringIO(a[n].decode()))), list(csv.DictReader(io.StringIO(b[n].decode())))
                if ra == rb:
                    continue
                return f"{n}: {ra[:6]} / {rb[:6]}"
            return f"contents of {n} differ"
    return None
