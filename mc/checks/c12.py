"""C12: JSON serialisation round trips, and truncated files."""
import copy, itertools, os, math
import numpy as np
from .. import fixtures as fx
from ..engine import Space, Violation, need, digest

PROP = "C12"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of object shapes and nestings round-tripped through files by the real code, and of every truncation point of the written files"
RULE = ("all combinations of data type, shape and memory layout of arrays, all nestings up to the depth bound over a set of leaves, and riptide objects of many shapes, saved to a file, compared with the "
        "original after loading (type, data type, shape, exact values, writability, usability); and for each of a set of saved files, every strict prefix of the file loaded")
ASSUMPTIONS = ["tables have the default index, numeric columns, and no integer above 2^53 next to a floating point column", "a file cut only before trailing white space is complete", "a time series has at least one sample"]

_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c12-")


def tmp():
    return os.path.join(_dir, "f%d.json" % os.getpid())


DTYPES = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "c8", "c16", ">i2", ">u4", ">f4", ">f8", ">c8", "g"]
SHAPES = [(), (0,), (1,), (3,), (7,), (1, 1), (2, 3), (3, 2), (0, 3), (3, 0), (2, 1, 4), (2, 3, 4), (1, 1, 1, 1, 2), (0, 0)]
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "readonly", "broadcast"]
VALS = ["count", "extreme"]


def array(dt, shape, layout, vals):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    if vals == "count":
        base = np.arange(1, n + 1) * 3
        a = (base % 120).astype(dt) if dt.kind != "c" else (base - 1j * base[::-1]).astype(dt)
    else:
        if dt.kind in "iu":
            i = np.iinfo(dt)
            pool = [i.min, i.max, 0, 1, i.max // 3]
        elif dt.kind == "f":
            i = np.finfo(dt)
            pool = [np.nan, np.inf, -np.inf, i.max, i.tiny, -0.0, 0.1, i.smallest_subnormal]
        elif dt.kind == "c":
            i = np.finfo(dt)
            pool = [complex(np.nan, 1), complex(0.1, -np.inf), complex(float(i.tiny), -0.0)]
        else:
            pool = [True, False]
        a = np.array([pool[k % len(pool)] for k in range(n)], dtype=dt)
    a = a.reshape(shape)
    if layout == "F":
        return np.asfortranarray(a) if a.ndim else a
    if layout == "strided" and a.ndim:
        b = np.zeros(tuple(2 * s for s in shape), dtype=dt)
        v = b[tuple(slice(None, None, 2) for _ in shape)]
        v[...] = a
        return v
    if layout == "reversed" and a.ndim:
        return np.array(a[tuple(slice(None, None, -1) for _ in shape)])[tuple(slice(None, None, -1) for _ in shape)]
    if layout == "transposed" and a.ndim:
        return np.array(a.T).T
    if layout == "readonly":
        a.setflags(write=False)
        return a
    if layout == "broadcast" and a.ndim:
        return np.broadcast_to(a.ravel()[:1].reshape((1,) * a.ndim) if n else a, shape)
    return a


def coords(c):
    return np.asarray(c.icrs.ra.deg), np.asarray(c.icrs.dec.deg)


def same(a, b, path="object"):
    """None or a description of how loaded b differs from a."""
    import pandas, riptide
    from astropy.coordinates import SkyCoord
    if isinstance(a, np.ndarray):
        if type(b) is not np.ndarray:
            return f"{path}: array became {type(b).__name__}"
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{path}: {a.dtype} array of shape {a.shape} became {b.dtype} {b.shape}"
        if a.dtype.kind != "f" or a.dtype.itemsize != 16:
            if np.ascontiguousarray(a).tobytes() != np.ascontiguousarray(b).tobytes():
                return f"{path}: values changed"
        elif not np.array_equal(a, b, equal_nan=True):
            return f"{path}: values changed"
        if not b.flags.writeable:
            return f"{path}: loaded array is read-only"
        return None
    if isinstance(a, pandas.DataFrame):
        if not isinstance(b, pandas.DataFrame):
            return f"{path}: table became {type(b).__name__}"
        if list(a.columns) != list(b.columns) or len(a) != len(b):
            return f"{path}: columns {list(a.columns)} x {len(a)} rows became {list(b.columns)} x {len(b)}"
        for k, c in enumerate(a.columns):
            e = same(np.array(a.iloc[:, k].values), np.array(b.iloc[:, k].values), f"{path}.{c}")
            if e:
                return e
        return None
    if isinstance(a, SkyCoord):
        if not isinstance(b, SkyCoord):
            return f"{path}: coordinate became {type(b).__name__}"
        for x, y in zip(coords(a), coords(b)):
            if x.shape != y.shape or not np.array_equal(x, y):
                return f"{path}: coordinate {coords(a)} became {coords(b)}"
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return f"{path}: dict became {type(b).__name__}"
        if type(a) is dict and type(b) is not dict:
            return f"{path}: plain dict became {type(b).__name__}"
        if list(a) != list(b) and set(a) != set(b):
            return f"{path}: keys {sorted(a)} became {sorted(b)}"
        for k in a:
            e = same(a[k], b[k], f"{path}[{k!r}]")
            if e:
                return e
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, list) or len(a) != len(b):
            return f"{path}: {a!r:.80} became {b!r:.80}"
        for i, (x, y) in enumerate(zip(a, b)):
            e = same(x, y, f"{path}[{i}]")
            if e:
                return e
        return None
    if isinstance(a, (riptide.TimeSeries, riptide.Periodogram, riptide.Candidate)):
        if type(b) is not type(a):
            return f"{path}: {type(a).__name__} became {type(b).__name__}"
        names = {"TimeSeries": ("data", "tsamp", "metadata", "nsamp", "length", "tobs"), "Periodogram": ("widths", "periods", "foldbins", "snrs", "metadata", "freqs", "tobs"),
                 "Candidate": ("params", "tsmeta", "peaks", "subints", "profile", "dm_curve")}[type(a).__name__]
        for n in names:
            x, y = getattr(a, n), getattr(b, n)
            if n == "dm_curve":
                x, y = [np.array(v) for v in x], [np.array(v) for v in y]
            e = same(x, y, f"{path}.{n}")
            if e:
                return e
        return None
    if isinstance(a, np.generic):
        a = a.item()
    if type(a) is not type(b):
        return f"{path}: {a!r:.80} ({type(a).__name__}) became {b!r:.80} ({type(b).__name__})"
    if isinstance(a, float) and math.isnan(a):
        return None if math.isnan(b) else f"{path}: nan became {b}"
    if a != b or (isinstance(a, float) and math.copysign(1, a) != math.copysign(1, b)):
        return f"{path}: {a!r:.80} became {b!r:.80}"
    return None


def roundtrip(o, msg, ctx, **kw):
    import riptide
    before = fx.canon(o)
    f = tmp()
    riptide.save_json(f, o, **kw)
    need(fx.canon(o) == before, "%s: saving modified the object", msg)
    r = riptide.load_json(f)
    e = same(o, r)
    need(e is None, "%s: %s", msg, e)
    need(fx.canon(o) == before, "%s: loading modified the saved object", msg)
    # loaded objects can be saved again
    riptide.save_json(f, r)
    r2 = riptide.load_json(f)
    e = same(o, r2)
    need(e is None, "%s: second round trip: %s", msg, e)
    os.remove(f)
    ctx.ev(1)
    ctx.outcome(msg)
    return r


def ev_arrays(case, ctx):
    for dt, shape, layout, vals in case["items"]:
        roundtrip(array(dt, tuple(shape), layout, vals), f"array {dt} {shape} {layout} {vals}", ctx)


def ev_large(case, ctx):
    import pandas, riptide
    k, n = case["kind"], case["n"]
    if k in DTYPES:
        for layout in ("C", "F", "strided", "reversed", "readonly"):
            for shape in ((n,), (n // 7, 7), (3, n // 3)):
                a = array(k, shape, layout, "count")
                if a.dtype.kind == "f" and k != "f2":
                    a = (a.astype(float) / 7 + np.arange(a.size).reshape(a.shape)).astype(k)
                roundtrip(a, f"array {k} {shape} {layout}", ctx)
        return
    if k == "ts":
        o = riptide.TimeSeries((np.arange(n) % 10007 / 3).astype(np.float32), 64e-6, metadata=metadatas()["full"])
    elif k == "pg":
        o = riptide.Periodogram(np.arange(1, 8), 1 + np.arange(n) / n, np.full(n, 250, dtype=np.uint32), (np.arange(7 * n) % 1009 / 3).astype(np.float32).reshape(n, 7), metadata=riptide.Metadata(dict(tobs=100.0, dm=1.0)))
    elif k == "table":
        i = np.arange(n)
        o = pandas.DataFrame({"period": 1 + i / n, "width": i % 1000, "snr": (i * 37 % 1009 / 3).astype(np.float32)})
    elif k == "list":
        o = [(i / 7 if i % 3 == 0 else i if i % 3 == 1 else str(i)) for i in range(n)]
    elif k == "dict":
        o = {"key %d" % i: [i, {"v": i / 3}] for i in range(n)}
    elif k == "arrays":
        o = {"a%d" % i: np.arange(i % 50, dtype=["f4", "i8", "u1"][i % 3]) for i in range(n)}
    elif k == "text":
        o = ["\u00e9\"\\\n\t\u2028x" * n, {"k" * n: "v"}]
    elif k == "deep":
        o = np.arange(3.0)
        for i in range(n):
            o = [o, i] if i % 2 else {"d": o, "i": i / 3}
    elif k == "cand":
        from riptide.pipeline.peak_cluster import PeakCluster
        from riptide.peak_detection import Peak
        ts = riptide.TimeSeries(fx.pulse_series(60000, 103.7, 6.0, 2.0), 0.01, metadata=metadatas()["full"])
        pk = [Peak(period=1 / (1 + 1e-6 * i), freq=1 + 1e-6 * i, width=2, ducy=0.05, iw=1, ip=3 + i, snr=8 + i % 97 / 3, dm=float(i % 31)) for i in range(n)]
        o = riptide.Candidate.from_pipeline_output(ts, PeakCluster(pk, rank=0), 64, subints=None)
    r = roundtrip(o, f"{k} of {n}", ctx)
    usable(o, r, f"{k} of {n}")


# ---------------------------------------------------------------- objects

def skycoords():
    from astropy.coordinates import SkyCoord
    import astropy.units as uu
    return {"icrs": SkyCoord(123.456789, -45.1, unit=uu.deg), "hour": SkyCoord("12:34:56.789", "-00:00:01.5", unit=(uu.hour, uu.deg)), "gal": SkyCoord(l=33.3 * uu.deg, b=-1.25 * uu.deg, frame="galactic"),
            "fk5": SkyCoord(0.0, 89.999, unit=uu.deg, frame="fk5"), "zero": SkyCoord(0.0, 0.0, unit=uu.deg), "array": SkyCoord([1.0, 359.5], [-89.0, 2.0], unit=uu.deg)}


def frames():
    import pandas
    return {"float": pandas.DataFrame({"a": [1.5, np.nan], "b": [np.inf, -0.0]}), "int": pandas.DataFrame({"x": [1, 2, 3]}), "mixed": pandas.DataFrame({"p": [0.1, 0.2], "w": [3, 4], "u": np.array([5, 6], dtype=np.uint8), "f": np.array([0.1, 0.7], np.float32)}),
            "empty": pandas.DataFrame({"a": np.zeros(0), "b": np.zeros(0)}), "one": pandas.DataFrame({"only": [7.0]}), "i32": pandas.DataFrame({"k": np.array([1, -5], dtype=np.int32)}),
            "intnames": pandas.DataFrame(np.arange(6.0).reshape(2, 3), columns=["c", "b", "a"])}


def metadatas():
    from riptide import Metadata
    sc = skycoords()
    return {"none": {}, "full": {"source_name": "J0000 é", "skycoord": sc["hour"], "dm": 12.5, "mjd": 59000.5, "tobs": 3.0, "fname": "/a/b.inf"}, "extra": {"dm": 0.0, "pairs": [(0, 10), (20, 30)], "nested": {"a": [1, {"b": None}]}, "t": True, "i": 7},
            "gal": {"skycoord": sc["gal"], "text": "line\n\"quote\" \\ \t /"}}


def timeseries():
    import riptide
    out = {}
    for mn, md in metadatas().items():
        for n in (1, 2, 50):
            out[f"{mn}-{n}"] = riptide.TimeSeries((np.arange(n) * 7 % 11).astype(np.float32) / 3, 0.1 + n / 7, metadata=md)
    out["strided"] = riptide.TimeSeries(np.arange(40, dtype=np.float32)[::-4], 64e-6)
    out["ints"] = riptide.TimeSeries(np.arange(9), 1)
    out["special"] = riptide.TimeSeries(np.array([np.nan, np.inf, -0.0, 1e-42, 3.4e38], dtype=np.float32), 1e-9)
    g = riptide.TimeSeries.generate(20.0, 0.01, 0.7, stdnoise=0)
    out["generated"] = g
    out["normalised"] = g.normalise()
    out["downsampled"] = g.downsample(3.3)
    return out


def periodograms():
    import riptide
    out = {}
    rng = np.random.RandomState(3)
    for mn, md in metadatas().items():
        for n in (0, 1, 5):
            for w in (1, 3):
                per = np.sort(rng.uniform(1, 2, size=n))
                out[f"{mn}-{n}-{w}"] = riptide.Periodogram(np.arange(1, w + 1), per, np.full(n, 32, dtype=np.uint32), rng.normal(size=(n, w)).astype(np.float32), metadata=riptide.Metadata(dict(md, tobs=10.0)))
    ts = riptide.TimeSeries(fx.pulse_series(3000, 61.3, 4, 2.0), 0.01, metadata={"dm": 3.5})
    out["search"] = riptide.ffa_search(ts, period_min=0.4, period_max=1.0, bins_min=32, bins_max=36)[1]
    return out


def candidates():
    import riptide
    from riptide.peak_detection import Peak
    from riptide.pipeline.peak_cluster import PeakCluster
    P = lambda f, snr, dm: Peak(period=1 / f, freq=f, width=2, ducy=0.05, iw=1, ip=3, snr=snr, dm=dm)
    out = {}
    for k, md in metadatas().items():
        ts = riptide.TimeSeries(fx.pulse_series(1000, 103.7, 6.0, 2.0), 0.01, metadata=md)
        for np_, cl in (("one", [P(1.0, 9.0, 0.0)]), ("many", [P(1.0, 9.0, 0.0), P(1.001, 12.5, 10.0), P(0.999, 8.0, 10.0)])):
            for sub in (1, 4, None):
                out[f"{k}-{np_}-{sub}"] = riptide.Candidate.from_pipeline_output(ts, PeakCluster(cl, rank=0), 16, subints=sub)
    return out


def library():
    import riptide
    lib = {}
    for kind, fn in (("coord", skycoords), ("frame", frames), ("ts", timeseries), ("pg", periodograms), ("cand", candidates)):
        for k, v in fn().items():
            lib[f"{kind}:{k}"] = v
    for k, v in metadatas().items():
        lib[f"meta:{k}"] = riptide.Metadata(v)
    return lib


def usable(o, r, msg):
    """The loaded object behaves as the original in what it is for."""
    import riptide
    if isinstance(o, riptide.TimeSeries):
        a, b = o.copy(), r
        with np.errstate(all="ignore"):
            for t in (a, b):
                t.normalise(inplace=True)
                if t.nsamp > 3:
                    t.deredden(3 * t.tsamp, minpts=3, inplace=True)
                    t.downsample(1.5, inplace=True)
        e = same(a, b)
        need(e is None, "%s: after operating on the original and the loaded series: %s", msg, e)
        b.data[...] = 1.0
        b.metadata["x"] = 2
        need(isinstance(b.metadata, riptide.Metadata), "%s: metadata of a loaded series is %s", msg, type(b.metadata))
    elif isinstance(o, riptide.Periodogram):
        a, b = riptide.find_peaks(o, smin=2.0), riptide.find_peaks(r, smin=2.0)
        need(repr(a) == repr(b), "%s: peaks of the original %s and of the loaded periodogram %s differ", msg, a, b)
    elif isinstance(o, riptide.Candidate):
        str(r)
        r.subints[...] = 0


def ev_objects(case, ctx):
    lib = library()
    for name in case["names"]:
        o = lib[name]
        for kw in ({}, {"indent": None}, {"indent": 1, "sort_keys": True}):
            r = roundtrip(o, f"{name} {kw}", ctx, **kw)
        usable(o, r, name)


def leaf(name):
    if name in _leaf:
        return _leaf[name]
    lib = library()
    _leaf.update(lib)
    _leaf.update({"none": None, "true": True, "false": False, "int": -3, "big": 2 ** 70, "float": 0.1, "tiny": 5e-324, "nan": float("nan"), "inf": float("-inf"), "str": "a\"b\\c\n é \u2028", "empty": "", "npf": np.float32(0.1), "npi": np.int16(7), "npd": np.float64(1 / 3),
                  "arr": array("f4", (2, 3), "F", "count"), "arr0": array("i8", (), "C", "count"), "arre": array("f8", (0, 2), "C", "count"), "typelike": "numpy.ndarray"})
    return _leaf[name]


_leaf = {}
LEAVES = ["none", "true", "int", "big", "float", "tiny", "nan", "inf", "str", "empty", "npf", "npi", "npd", "arr", "arr0", "arre", "coord:hour", "frame:mixed", "meta:full", "ts:full-2", "pg:extra-1-3", "cand:full-many-4"]


def build(t):
    if isinstance(t, str):
        return leaf(t)
    kind, items = t
    if kind == "L":
        return [build(i) for i in items]
    if kind == "T":
        return tuple(build(i) for i in items)
    keys = ["a", "", "data", "__version__x", "shape"]
    return {keys[k]: build(i) for k, i in enumerate(items)}


def ev_nest(case, ctx):
    for t in case["trees"]:
        roundtrip(build(t), f"nesting {t}", ctx)


def trees(depth):
    base = list(LEAVES)
    out = [["L", []], ["D", []]]
    out += [[k, [a]] for k in "LDT" for a in base]
    out += [[k, [a, b]] for k in "LD" for a in base for b in base]
    inner = [["L", ["arr"]], ["D", ["arr"]], ["L", []], ["D", []], ["D", ["ts:full-2", "coord:hour"]], ["L", ["float", "meta:full"]], ["T", ["int", "int"]]]
    out += [[k, [i, b]] for k in "LDT" for i in inner for b in base + inner]
    for _ in range(depth):
        inner = [[k, [i]] for k in "LD" for i in inner]
        out += inner
        out += [[k, [i, i]] for k in "LD" for i in inner]
    return out


TRUNC = ["ts:full-2", "ts:extra-1", "pg:extra-1-3", "pg:none-0-1", "cand:full-one-1", "cand:gal-many-4", "frame:mixed", "frame:empty", "coord:hour", "meta:full", "nest"]


def trunc_text(name, indent):
    import riptide
    o = build(["L", ["arr", ["D", ["coord:hour", "ts:full-2"]], "float"]]) if name == "nest" else leaf(name)
    f = tmp()
    riptide.save_json(f, o, indent=indent)
    with open(f, "rb") as fo:
        return o, fo.read()


def ev_trunc(case, ctx):
    import riptide
    o, full = trunc_text(case["name"], case["indent"])
    f = tmp()
    n = len(full)
    for cut in range(case["part"], n, case["parts"]):
        pre = full[:cut]
        if pre.strip() == full.strip():
            continue
        with open(f, "wb") as fo:
            fo.write(pre)
        try:
            r = riptide.load_json(f)
        except Exception:
            ctx.ev(1)
            ctx.outcome(cut)
            continue
        raise Violation(f"{case['name']}: a file cut at byte {cut} of {n} loaded as {r!r:.200}")
    with open(f, "wb") as fo:
        fo.write(full)
    e = same(o, riptide.load_json(f))
    need(e is None, "%s: %s", case["name"], e)


def ev_overwrite(case, ctx):
    """Saving over an existing file of any other object leaves only the new object."""
    import riptide
    f = tmp()
    for b in case["after"]:
        a, o = leaf(case["first"]), leaf(b)
        riptide.save_json(f, a)
        riptide.save_json(f, o)
        e = same(o, riptide.load_json(f))
        need(e is None, "%s saved over %s: %s", b, case["first"], e)
        ctx.ev(1)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def spaces(tier):
    deep = tier == "thorough"
    items = [[d, list(s), l, v] for d in DTYPES for s in SHAPES for l in LAYOUTS for v in VALS]
    names = sorted(library())
    T = trees(3 if deep else 1)
    if deep:
        T += [[k, [a, b, c]] for k in "LD" for a in LEAVES for b in LEAVES for c in LEAVES]
    tr = TRUNC + (sorted(n for n in names if n not in TRUNC) if deep else [])
    return [Space("arrays", [dict(items=c) for c in chunks(items, 60)], ev_arrays, "data type x shape x layout x values"),
            Space("objects", [dict(names=c) for c in chunks(names, 2)], ev_objects, "all riptide objects, coordinates, tables and metadata of the library, with save options, and their use after loading"),
            Space("large", [dict(kind=k, n=n) for k, ns in (("f4", (70003, 1 << 20)), ("f8", (70003,)), ("i8", (33001,)), ("u1", (70003,)), ("?", (70003,)), ("c16", (70003,)), (">f4", (70003,)),
                  ("ts", (65537, (1 << 20) + 3)), ("pg", (40000,)), ("table", (257, 5000, 70000)), ("list", (3000,)), ("dict", (2000,)), ("arrays", (300,)), ("text", (5000,)), ("deep", (20, 60)), ("cand", (1, 300, 2000)))
                  for n in ns + ((ns[-1] * 4 + 1,) if deep and k != "deep" else ())], ev_large, "large arrays, tables, series, lists, dicts and deep nestings", batch=1),
            Space("nestings", [dict(trees=c) for c in chunks(T, 40)], ev_nest, "lists and dicts of leaves"),
            Space("truncation", [dict(name=n, indent=i, part=p, parts=8) for n in tr for i in (4, None) for p in range(8)], ev_trunc, "every strict prefix of saved files"),
            Space("overwrite", [dict(first=a, after=names) for a in (names if deep else ["cand:full-many-4", "coord:hour"])], ev_overwrite, "one object saved over another")]
