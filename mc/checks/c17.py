"""C17: selection of the DM trials to process."""
import itertools, math, os
import numpy as np
from .. import fixtures as fx
from ..engine import Space, Violation, need

PROP = "C17"
LEVEL = "exploration"
RULE = ("all subsets of a grid of DM trials (real files, both formats) x observing bands x minimum widths x DM ranges x galactic latitudes; all orders of small file sets; all chunk sizes; for each, the coverage radii are recomputed "
        "and the selection must be increasing, span the range, leave no avoidable gap and contain no trial that could be skipped; every single file with an odd position or band")
ASSUMPTIONS = ["dispersion constant 1/2.41e-4 s MHz^2 cm^3 pc^-1 and smearing evaluated at the centre of the band", "steps within 1e-9 of touching are not classified",
               "PRESTO bands extend from fbot to fbot + nchan x cbw (as the code documents through its attributes)"]

KDM = 1.0 / 2.41e-4
_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c17-")


_cache = {}
COORDS = {"gal0": ("06:00:00.0000", "23:00:00.0000"), "gp": ("12:51:26.28", "27:07:41.7"), "mid": ("17:30:00.0", "-60:00:00.0"), "sgp": ("00:30:00.0", "-20:15:00.5"), "low": ("18:10:00.0", "-15:00:00.0")}


def gal_lat(raj, decj):
    """Galactic latitude (degrees) of a J2000 position, from the pole's coordinates."""
    def sx(s):
        neg = s.strip().startswith("-")
        h, m, x = s.replace("-", "").split(":")
        v = float(h) + float(m) / 60 + float(x) / 3600
        return -v if neg else v
    ra, de = math.radians(15 * sx(raj)), math.radians(sx(decj))
    a, d = math.radians(192.85948), math.radians(27.12825)
    return math.degrees(math.asin(math.sin(de) * math.sin(d) + math.cos(de) * math.cos(d) * math.cos(ra - a)))


def getfile(fmt, dm, band, coord, nsamp=64, tsamp=1e-3):
    """Writes (once per worker) the file of a DM trial; returns its path."""
    key = (fmt, dm, band, coord, nsamp, tsamp)
    if key not in _cache:
        ra, de = COORDS[coord] if isinstance(coord, str) else coord
        name = f"f{os.getpid()}_{len(_cache):05d}"
        if fmt == "presto":
            fbot, nchan, cbw = band
            _cache[key] = fx.write_presto(_dir, name, np.zeros(nsamp), tsamp, dm, raj=ra, decj=de, fbot=repr(float(fbot)), nchan=str(nchan), cbw=repr(float(cbw)), bandwidth=repr(abs(nchan * cbw)))
        else:
            def enc(s):
                neg = s.strip().startswith("-")
                h, m, x = s.replace("-", "").split(":")
                v = float(h) * 1e4 + float(m) * 1e2 + float(x)
                return -v if neg else v
            _cache[key] = fx.write_sigproc(_dir, name, np.zeros(nsamp), tsamp, dm, src_raj=enc(ra), src_dej=enc(de))
    return _cache[key]


def check_selection(sel, dms, lo, hi, fmin, fmax, nchans, wmin, msg):
    avail = sorted({d for d in dms if lo <= d <= hi})
    sel = [float(d) for d in sel]
    need(sel and set(sel) <= set(avail), "%s: selected %s, available in range %s", msg, sel, avail)
    need(all(a < b for a, b in zip(sel, sel[1:])), "%s: selection %s is not increasing", msg, sel)
    need(sel[0] == avail[0] and sel[-1] == avail[-1], "%s: selection %s does not span %s", msg, sel, avail)
    kdisp = KDM * (fmin ** -2 - fmax ** -2)
    cw, fm = (fmax - fmin) / nchans, (fmax + fmin) / 2
    ks = KDM * ((fm - cw / 2) ** -2 - (fm + cw / 2) ** -2)

    def gap(a, b):
        return (b - max(wmin, ks * b) / kdisp) - (a + max(wmin, ks * a) / kdisp)
    tol = 1e-9 * (1 + max(avail))
    for a, b in zip(sel, sel[1:]):
        between = [d for d in avail if a < d < b]
        need(gap(a, b) <= tol or not between, "%s: selected %s and %s leave a gap of %s although %s are available between them", msg, a, b, gap(a, b), between)
    for a, b, c in zip(sel, sel[1:], sel[2:]):
        need(gap(a, c) > -tol, "%s: trial %s is selected although %s and %s touch (gap %s); selection %s", msg, b, a, c, gap(a, c), sel)
    return sel


def iterate(it, sel, bydm, msg, chunks):
    exp = [bydm[d] for d in sel]
    for c in chunks:
        got = list(it.iterate_filenames(chunksize=c))
        need(all(len(x) == c for x in got[:-1]) and (not got or 0 < len(got[-1]) <= c), "%s: chunks of sizes %s for chunksize %s", msg, [len(x) for x in got], c)
        flat = [os.path.realpath(f) for x in got for f in x]
        need(len(flat) == len(sel) and all(f in e for f, e in zip(flat, exp)), "%s, chunksize %s: files %s, expected %s", msg, c, list(map(os.path.basename, flat)), exp)
    for d, e in zip(sel, exp):
        need(os.path.realpath(it.get_filename(d)) in e, "%s: get_filename(%s) = %s", msg, d, it.get_filename(d))


def run(case, files, dms, ctx, order=None):
    """Builds the iterator on these files and checks everything."""
    from riptide.pipeline.dmiter import DMIterator
    fmt = case["fmt"]
    band = case["band"]
    lo, hi, cap = case["range"][0], case["range"][1], case["cap"]
    msg = f"{fmt}, DMs {dms}, range {lo}..{hi}, cap {cap} at {case['coord']}, wmin {case['wmin']}, band {band}"
    kw = {}
    if fmt == "presto":
        fb, nc, cb = band
        fmin, fmax = min(fb, fb + nc * cb), max(fb, fb + nc * cb)
        if case.get("manual"):
            kw = dict(fmin=100.0, fmax=200.0, nchans=7)
    else:
        fmin, fmax, nc = band
        kw = dict(fmin=fmin, fmax=fmax, nchans=nc)
    lo2 = min(dms) if lo is None else lo
    hi2 = max(dms) if hi is None else hi
    ambiguous = False
    if cap is not None:
        b = gal_lat(*(COORDS[case["coord"]] if isinstance(case["coord"], str) else case["coord"]))
        lim = cap / abs(math.sin(math.radians(b)))
        ambiguous = any(abs(d - lim) < 1e-4 * lim + 1e-6 for d in dms)
        hi2 = min(hi2, lim)
    if ambiguous:
        return
    args = (list(files), lo, hi)
    opts = dict(dmsinb_max=cap, fmt=fmt, wmin=case["wmin"], **kw)
    if not [d for d in dms if lo2 <= d <= hi2]:
        try:
            it = DMIterator(*args, **opts)
        except Exception:
            ctx.ev(1, nontrivial=False)
            return
        raise Violation(f"{msg}: no DM trial in range, but selected {it.selected_dms}")
    it = DMIterator(*args, **opts)
    need(abs(it.fmin - fmin) < 1e-9 and abs(it.fmax - fmax) < 1e-9 and it.nchans == nc, "%s: band parameters used are %s", msg, (it.fmin, it.fmax, it.nchans))
    sel = check_selection(it.selected_dms, dms, lo2, hi2, fmin, fmax, nc, case["wmin"], msg)
    bydm = {}
    for f, d in zip(files, dms):
        bydm.setdefault(d, set()).add(os.path.realpath(f))
    iterate(it, sel, bydm, msg, (*range(1, len(sel) + 3), 4 * len(sel), 1000))
    ctx.ev(1, nontrivial=len(sel) > 1)
    ctx.outcome((tuple(sel), len(dms)))
    return it


def ev_subsets(case, ctx):
    for r in range(1, len(case["grid"]) + 1):
        for sub in itertools.combinations(case["grid"], r):
            if case["first"] != sub[0]:
                continue
            files = [getfile(case["fmt"], d, tuple(case["band"]) if case["fmt"] == "presto" else None, case["coord"]) for d in sub]
            # an order that is neither increasing nor decreasing
            o = list(range(0, r, 2))[::-1] + list(range(1, r, 2))
            run(case, [files[i] for i in o], [sub[i] for i in o], ctx)


def ev_orders(case, ctx):
    """All orders of the same files, sizes and sampling times differing."""
    dms = case["grid"]
    n = len(dms)
    files = [getfile(case["fmt"], d, tuple(case["band"]) if case["fmt"] == "presto" else None, case["coord"], nsamp=40 + 3 * i, tsamp=1e-3 * (1 + (i * 2) % 3)) for i, d in enumerate(dms)]
    tobs = [(40 + 3 * i) * 1e-3 * (1 + (i * 2) % 3) for i in range(n)]
    ts = [1e-3 * (1 + (i * 2) % 3) for i in range(n)]
    res = set()
    for p in itertools.permutations(range(n)):
        it = run(case, [files[i] for i in p], [dms[i] for i in p], ctx)
        if it is None:
            continue
        res.add(tuple(float(x) for x in it.selected_dms))
        need(len(res) == 1, "DMs %s: selection depends on the order of the files: %s", dms, res)
        need(abs(float(it.tobs_median()) - float(np.median(tobs))) < 1e-9, "median observation time %s, expected %s", it.tobs_median(), np.median(tobs))
        need(abs(float(it.tsamp_max()) - max(ts)) < 1e-12, "largest sampling time %s, expected %s", it.tsamp_max(), max(ts))


def ev_odd(case, ctx):
    """One odd file among n, at every position of the list."""
    from riptide.pipeline.dmiter import DMIterator
    n, kind, fmt = case["n"], case["kind"], case["fmt"]
    base = (1200.0, 16, 10.0)
    for odd in range(n):
        for p in itertools.permutations(range(n)) if n < 4 else [list(range(n))]:
            files = []
            for i in p:
                band, coord = base, "mid"
                if i == odd and kind == "band":
                    band = tuple(case["value"])
                if i == odd and kind == "coord":
                    coord = tuple(case["value"])
                files.append(getfile(fmt, 10.0 * i, band if fmt == "presto" else None, coord))
            msg = f"{fmt}: file {odd} of {n} has {kind} {case['value']} (order {list(p)})"
            for manual in (None, dict(fmin=1200.0, fmax=1360.0, nchans=16), dict(fmin=1200.0, fmax=1360.0), dict(fmin=1200.0, nchans=16), dict(fmax=1360.0, nchans=16), dict(fmin=500.0, fmax=700.0, nchans=4)):
                full = manual is not None and len(manual) == 3
                kw = dict(manual or {})
                ok = kind == "none" and (fmt == "presto" or full) or (kind == "band" and full)
                ctx.ev(1, nontrivial=ok)
                try:
                    it = DMIterator(files, None, None, dmsinb_max=case["cap"], fmt=fmt, wmin=1e-3, **kw)
                except Exception as e:
                    need(not ok, "%s, manual band %s: refused with %s: %s", msg, manual, type(e).__name__, e)
                    continue
                need(ok, "%s, manual band %s: accepted, using %s", msg, manual, (it.fmin, it.fmax, it.nchans))
                exp = (1200.0, 1360.0, 16) if kind == "none" and fmt == "presto" else (manual["fmin"], manual["fmax"], manual["nchans"])
                need((it.fmin, it.fmax, it.nchans) == exp, "%s, manual band %s: band used is %s", msg, manual, (it.fmin, it.fmax, it.nchans))
                check_selection(it.selected_dms, [10.0 * i for i in range(n)], 0.0, 10.0 * (n - 1), *exp, 1e-3, msg)


def ev_default(case, ctx):
    """Default of the DM sin|b| cap, minimum width and format."""
    from riptide.pipeline.dmiter import DMIterator
    grid = [0.0, 10.0, 44.0, 46.0, 60.0, 80.0]
    files = [getfile("presto", d, (1200.0, 16, 10.0), "gp") for d in grid]
    it = DMIterator(files, 0.0, 1000.0)
    check_selection(it.selected_dms, grid, 0.0, 45.0 / abs(math.sin(math.radians(gal_lat(*COORDS["gp"])))), 1200.0, 1360.0, 16, 1e-3, "default arguments")
    ctx.ev(1)


def spaces(tier):
    deep = tier == "thorough"
    G = [0.0, 3.0, 7.5, 8.0, 41.0, 90.0, 400.0] if not deep else [0.0, 1.0, 3.0, 7.5, 8.0, 20.0, 41.0, 90.0, 200.0, 400.0]
    bands = [(1200.0, 16, 10.0), (1180.0, 1024, 0.390625), (1500.0, 96, -3.0), (300.0, 2, 50.0), (1400.0, 1, 100.0)]
    wm = [1e-4, 1.3e-3, 5.1e-3, 0.031]
    cases = []
    R = [(None, None), (0.0, 1000.0), (5.0, 50.0), (7.5, 90.0), (None, 41.0), (8.0, None), (30.0, 35.0), (500.0, 600.0), (20.0, 20.0)]
    confs = [(b, w, R[0], None, "mid") for b in bands for w in wm]
    confs += [(bands[0], w, r, None, "gal0") for w in (1.3e-3, 0.031) for r in R[1:]]
    confs += [(bands[1], 5.1e-3, r, c, co) for r in (R[0], R[2]) for c, co in ((15.0, "gp"), (15.0, "mid"), (15.0, "gal0"), (40.0, "sgp"), (2.0, "low"), (1e-3, "gp"))]
    for fmt in ("presto", "sigproc"):
        for b, w, r, c, co in confs:
            if fmt == "sigproc":
                if not deep and (c, r) == (None, R[0]) and w != wm[1]:
                    continue
                b = (min(b[0], b[0] + b[1] * b[2]), max(b[0], b[0] + b[1] * b[2]), b[1])
            for first in G:
                if not deep and r != R[0] and first not in (G[0], G[1], G[3]):
                    continue
                cases.append(dict(fmt=fmt, band=b, wmin=w, range=r, cap=c, coord=co, grid=G, first=first))
    # dense trials: many can be skipped
    dense = []
    for n, st in ((60, 1.0), (33, 0.37), (33, 11.0), (257, 3.0), (400, 0.1)) + (((150, 2.0),) if deep else ()):
        for b in bands:
            for w in wm if n < 200 else wm[1:3]:
                if n > 200 and b not in bands[:2]:
                    continue
                dense.append(dict(fmt="presto", band=b, wmin=w, range=(None, None), cap=None, coord="mid", n=n, step=st, manual=True))
    orders = [dict(fmt=fmt, band=bands[0] if fmt == "presto" else (1200.0, 1360.0, 16), wmin=w, range=r, cap=None, coord="mid", grid=g, manual=True)
              for fmt in ("presto", "sigproc") for w in (1e-3, 0.02) for r in ((None, None), (5.0, 60.0)) for g in ([10.0], [30.0, 10.0], [0.0, 10.0, 50.0], [0.0, 10.0, 10.5, 50.0]) + (([0.0, 5.0, 10.0, 10.5, 50.0],) if deep else ())]
    odd = []
    for fmt in ("presto", "sigproc"):
        for n in (1, 2, 3) + ((4,) if deep else ()):
            for cap in (None, 45.0):
                odd.append(dict(fmt=fmt, n=n, kind="none", value=None, cap=cap))
                if n > 1:
                    for v in (("17:30:00.0", "-60:00:01.0"), ("17:30:00.1", "-60:00:00.0"), ("17:30:00.0", "60:00:00.0"), ("05:30:00.0", "-60:00:00.0")):
                        odd.append(dict(fmt=fmt, n=n, kind="coord", value=v, cap=cap))
                    if fmt == "presto":
                        for v in ((1200.0, 32, 5.0), (1210.0, 16, 10.0), (1200.0, 16, 10.5), (1200.0, 17, 10.0)):
                            odd.append(dict(fmt=fmt, n=n, kind="band", value=v, cap=cap))
    return [Space("subsets", cases, ev_subsets, "all subsets of the DM grid"), Space("dense", dense, ev_dense, "long lists of regularly spaced trials"),
            Space("orders", orders, ev_orders, "all orders of the files"), Space("odd", odd, ev_odd, "one odd file at every position; manual band parameters"),
            Space("defaults", [{}], ev_default, "default arguments")]


def ev_dense(case, ctx):
    dms = [round(i * case["step"], 6) for i in range(case["n"])]
    files = [getfile("presto", d, tuple(case["band"]), case["coord"]) for d in dms]
    k = case["n"] // 3
    for o in (list(range(case["n"])), list(range(case["n"]))[::-1], list(range(k, case["n"])) + list(range(k))):
        run(case, [files[i] for i in o], [dms[i] for i in o], ctx)
