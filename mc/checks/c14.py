"""C14: SIGPROC time series files."""
import itertools, os, struct
import numpy as np
from .. import fixtures as fx
from ..engine import Space, Violation, need

PROP = "C14"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of well-formed headers (keys, orders, values, data types and sizes), of every truncation point of headers, and of call sequences with extra keys, on the real code"
RULE = ("every standard key with several values, all orders of a small header and all rotations and transpositions of a large one, all coordinates of a grid, three data types x sizes with partial trailing samples; "
        "every cut of headers; multi-channel, unsupported depths, missing signedness, unknown keys; all short sequences of calls with and without extra keys")
ASSUMPTIONS = ["positions agree within 1e-8 degrees", "a file holds at least one sample"]

_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c14-")


def workdir():
    d = os.path.join(_dir, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


FLOATS = ["az_start", "za_start", "src_raj", "src_dej", "tstart", "tsamp", "fch1", "foff", "fchannel", "refdm", "flux", "period", "pb", "ecc", "asini", "bandwidth", "fbottom", "ftop", "accel"]
INTS = [k for k in fx.INT]
STRS = list(fx.STR)


def body(bits, n, trail=0):
    if bits == 32:
        x = (np.arange(n) * 37 % 101 / 7.0 - 3).astype(np.float32)
        if n > 4:
            x[:4] = np.nan, np.inf, -0.0, 1e-44
        raw = x.tobytes()
        raw += bytes([1, 2, 3][:trail])
        return x, raw
    if bits == 8:
        x = (np.arange(n) * 7 % 256).astype(np.uint8)
        return x, x.tobytes()
    raise KeyError(bits)


def write(items, raw, name="t.tim", types=None):
    p = os.path.join(workdir(), name)
    with open(p, "wb") as f:
        h = fx.sp_header(items, types)
        f.write(h)
        f.write(raw)
    return p, len(h)


def coord(v):
    s = -1 if v < 0 else 1
    v = abs(v)
    # decimal digits as a human reads them
    hh = int(v // 10000)
    mm = int((v - hh * 10000) // 100)
    ss = v - hh * 10000 - mm * 100
    return s * (hh + mm / 60 + ss / 3600)


def same_val(a, b):
    return type(a) is type(b) and (a == b or (a != a and b != b))


def check_file(p, hsize, items, x, msg, extra={}):
    import riptide
    from riptide.reading import SigprocHeader
    exp = dict(items)
    for k in exp:
        if k in fx.BOOL or extra.get(k) is bool:
            exp[k] = bool(exp[k])
        elif k in FLOATS or (k in extra and extra[k] is float):
            exp[k] = float(exp[k])
    sh = SigprocHeader(p, extra_keys=extra)
    need(set(sh) == set(exp), "%s: header keys %s, file has %s", msg, sorted(sh), sorted(exp))
    for k, v in exp.items():
        need(same_val(sh[k], v), "%s: header value of %s is %r, file has %r", msg, k, sh[k], v)
    need(sh.bytesize == hsize, "%s: header size %s, expected %s", msg, sh.bytesize, hsize)
    need(os.path.isabs(sh.fname) and os.path.samefile(sh.fname, p), "%s: path %s", msg, sh.fname)
    T = x.size * exp["tsamp"]
    need(abs(sh.tobs - T) <= 1e-12 * T and sh.nsamp == x.size, "%s: nsamp %s tobs %s, expected %s %s", msg, sh.nsamp, sh.tobs, x.size, T)
    ts = riptide.TimeSeries.from_sigproc(p, extra_keys=extra) if extra else riptide.TimeSeries.from_sigproc(p)
    for md, what in ((riptide.Metadata.from_sigproc(p, extra_keys=extra), "Metadata"), (riptide.Metadata.from_sigproc(sh), "Metadata of a header"), (ts.metadata, "TimeSeries")):
        for k, v in exp.items():
            need(k in md and same_val(md[k], v), "%s: %s value of %s is %r, file has %r", msg, what, k, md.get(k), v)
        need(md["dm"] == exp.get("refdm") and md["mjd"] == exp.get("tstart") and md["source_name"] == exp.get("source_name"), "%s: %s dm %s mjd %s source %s", msg, what, md["dm"], md["mjd"], md["source_name"])
        need(os.path.isabs(md["fname"]) and os.path.samefile(md["fname"], p), "%s: %s path is %s", msg, what, md["fname"])
        need(abs(md["tobs"] - T) <= 1e-12 * T, "%s: %s tobs is %s, expected %s", msg, what, md["tobs"], T)
        c = md["skycoord"].icrs
        ra, dec = coord(exp["src_raj"]) * 15, coord(exp["src_dej"])
        dra = abs(c.ra.deg - ra) % 360
        need(min(dra, 360 - dra) < 1e-8 and abs(c.dec.deg - dec) < 1e-8, "%s: %s position %s %s deg, expected %s %s (src_raj %s, src_dej %s)", msg, what, c.ra.deg, c.dec.deg, ra, dec, exp["src_raj"], exp["src_dej"])
    need(ts.data.dtype == np.float32 and ts.data.shape == x.shape and ts.data.tobytes() == x.astype(np.float32).tobytes(), "%s: series is not the stored samples", msg)
    need(ts.tsamp == exp["tsamp"], "%s: tsamp is %s", msg, ts.tsamp)


def item_values():
    out = []
    for k in FLOATS:
        if k in ("src_raj", "src_dej"):
            continue
        for v in (0.0, 1.5, 1e-5, 123456.789) if k in ("refdm", "tstart") else (1.0, 6.4e-5, 0.1) if k == "tsamp" else (0.0, -1.5, 1e300, 1 / 3, 5e-324):
            out.append((k, v))
    for k in INTS:
        if k in ("nbits", "nchans"):
            continue
        for v in (0, 1, -1, 2 ** 31 - 1, -2 ** 31, 256):
            out.append((k, v))
    for k in STRS:
        for v in ("", "x", "HEADER_END", "HEADER_START", "tsamp", "a b=c/d", "y" * 300, "z" * 80, "z" * 255, "z" * 256, "z" * 5000, "z" * 70001, "\u00e9t\u00e9"):
            out.append((k, v))
    out += [("signed", 1), ("signed", 0), ("nchans", 0)]
    return [o for o in out if o != ("nchans", 0)]


def ev_values(case, ctx):
    for bits, signed, n, ch in case["items"]:
        kw = dict(ch)
        if bits == 8:
            kw.setdefault("signed", signed)
        items = fx.sp_items(nbits=bits, **kw)
        x, raw = body(bits, n)
        if bits == 8 and kw["signed"]:
            x = x.view(np.int8)
        p, h = write(items, raw)
        check_file(p, h, items, x, f"{bits} bits, signed={kw.get('signed')}, {n} samples, {ch}")
        ctx.ev(1)
        ctx.outcome((bits, signed, n, repr(ch)))


def ev_orders(case, ctx):
    for order in case["orders"]:
        items = [case["base"][i] for i in order]
        items = [(k, v) for k, v in items]
        d = dict(items)
        x, raw = body(d["nbits"], 11)
        if d["nbits"] == 8 and d["signed"]:
            x = x.view(np.int8)
        p, h = write(items, raw)
        check_file(p, h, items, x, f"key order {[k for k, _ in items]}")
        ctx.ev(1)
        ctx.outcome(tuple(order))


def ev_coords(case, ctx):
    x, raw = body(32, 3)
    for ra, dec in case["coords"]:
        items = fx.sp_items(src_raj=ra, src_dej=dec)
        p, h = write(items, raw)
        check_file(p, h, items, x, f"coordinates {ra} {dec}")
        ctx.ev(1)
        ctx.outcome((ra, dec))


def ev_sizes(case, ctx):
    for bits, signed, n, trail in case["items"]:
        kw = dict(nbits=bits)
        if bits == 8:
            kw["signed"] = signed
        for ts in (64e-6, 1.0):
            items = fx.sp_items(tsamp=ts, **kw)
            x, raw = body(bits, n, trail)
            if bits == 8 and signed:
                x = x.view(np.int8)
            p, h = write(items, raw)
            check_file(p, h, items, x, f"{bits} bits signed={signed} {n} samples + {trail} bytes")
            ctx.ev(1)
        ctx.outcome((bits, signed, n, trail))


def refused(p, msg, extra={}):
    import riptide
    for what, fn in (("Metadata", lambda: riptide.Metadata.from_sigproc(p, extra_keys=extra)), ("TimeSeries", lambda: riptide.TimeSeries.from_sigproc(p, extra_keys=extra))):
        try:
            r = fn()
        except Exception:
            continue
        raise Violation(f"{msg}: {what} was read as {dict(getattr(r, 'metadata', r))}")


def refused_header(p, msg):
    from riptide.reading import SigprocHeader
    try:
        r = SigprocHeader(p)
    except Exception:
        return
    raise Violation(f"{msg}: header was read as {dict(r)}")


HEADERS = {"plain": fx.sp_items(), "signed": [("signed", 1)] + fx.sp_items(nbits=8), "last string": [t for t in fx.sp_items() if t[0] != "source_name"] + [("source_name", "J1234-5678")],
           "last bool": fx.sp_items(nbits=8) + [("signed", 0)], "all": fx.sp_items(**{k: 1.5 for k in FLOATS if k not in ("src_raj", "src_dej", "tsamp", "tstart", "refdm", "fch1", "foff")}, telescope="Parkes", filename="f")}


def ev_cut(case, ctx):
    items = HEADERS[case["header"]]
    h = fx.sp_header(items)
    p = os.path.join(workdir(), "cut.tim")
    for cut in range(len(h)):
        with open(p, "wb") as f:
            f.write(h[:cut])
        msg = f"header {case['header']!r} cut at byte {cut} of {len(h)}"
        refused(p, msg)
        refused_header(p, msg)
        ctx.ev(1)
        ctx.outcome(cut)


def ev_bad(case, ctx):
    x, raw = body(32, 64)
    def bad(items, msg, types=None, extra={}):
        p, _ = write(items, raw, "bad.tim", types)
        refused(p, msg, extra)
        ctx.ev(1)
        ctx.outcome(msg)
    for n in (2, 3, 4, 16, 1024):
        for bits in (32, 8):
            bad(fx.sp_items(nchans=n, nbits=bits, signed=1), f"{n} channels, {bits} bits")
    for b in (1, 2, 4, 16, 64, 0, -8, 24, 7, 31, 33, 320):
        bad(fx.sp_items(nbits=b), f"{b} bits")
        bad(fx.sp_items(nbits=b, signed=1), f"{b} bits, signed given")
    bad(fx.sp_items(nbits=8), "8 bits without signedness")
    for k in ("unknown", "Tsamp", "refDM", "tsamp ", "", "HEADER_STAR", "signe", "nbit"):
        for pos in (0, 3, None):
            it = fx.sp_items()
            pos = len(it) if pos is None else pos
            for t, v in (("d", 1.0), ("i", 3), ("s", "x"), ("B", 1)):
                bad(it[:pos] + [(k, v)] + it[pos:], f"unknown key {k!r} of type {t} at position {pos}", {k: t})
    # required keys
    for k in ("nbits", "nchans", "tsamp"):
        bad([t for t in fx.sp_items() if t[0] != k], f"no {k}")
    # not a header at all
    h = fx.sp_header(fx.sp_items())
    for what, b in (("no HEADER_START", h[16:]), ("other start flag", fx.sp_str("HEADER_STOP!") + h[16:]), ("empty", b""), ("zeros", bytes(400)), ("text", b"HEADER_START\n" * 30)):
        p = os.path.join(workdir(), "bad.tim")
        with open(p, "wb") as f:
            f.write(b)
        refused(p, what)
        refused_header(p, what)
        ctx.ev(1)
    # values outside of what metadata accept
    bad(fx.sp_items(refdm=-1.0), "negative dispersion measure")
    bad(fx.sp_items(tstart=-1.0), "negative date")


# ---------------------------------------------------------------- sequences of calls with extra keys

def ev_seq(case, ctx):
    """In one process: calls with and without extra keys; each behaves as if alone."""
    import riptide
    from riptide.reading import SigprocHeader
    x, raw = body(32, 9)
    std = fx.sp_items(refdm=7.25)
    files = {"std": (std, None), "ef": (std + [("my_key", 2.5)], {"my_key": "d"}), "ei": ([("my_key", 3)] + std, {"my_key": "i"}), "es": (std + [("my_key", "abc"), ("other", 1)], {"my_key": "s", "other": "B"}),
             "ov": (std, {"refdm": "d"}), "oi": ([(k, (9 if k == "machine_id" else v)) for k, v in std], {"machine_id": "d"})}
    extras = {"none": {}, "f": {"my_key": float}, "i": {"my_key": int}, "s": {"my_key": str, "other": bool}, "mf": {"machine_id": float}, "unused": {"zzz": str}}
    good = {("std", "none"), ("std", "f"), ("std", "i"), ("std", "s"), ("std", "unused"), ("ef", "f"), ("ei", "i"), ("es", "s"), ("ov", "none"), ("oi", "mf"), ("ov", "f"), ("ov", "unused")}
    paths = {}
    for k, (it, ty) in files.items():
        paths[k] = write(it, raw, k + ".tim", ty)
    for seq in case["seqs"]:
        for k, (f, e) in enumerate(seq):
            it, _ = files[f]
            extra = dict(extras[e])
            keep = dict(extra)
            p, h = paths[f]
            msg = f"call {k} of {seq}"
            if (f, e) in good:
                exp = [(a, float(b) if extra.get(a) is float else b) for a, b in it]
                check_file(p, h, exp, x, msg, extra)
            elif f in ("ef", "ei", "es") and e in ("none", "mf", "unused"):
                refused(p, msg, extra)
            else:
                try:
                    SigprocHeader(p, extra_keys=extra)
                except Exception:
                    pass
            need(extra == keep, "%s: the extra keys given were modified", msg)
            ctx.ev(1)
        ctx.outcome(repr(seq))


def chunk(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def spaces(tier):
    deep = tier == "thorough"
    vals = []
    for k, v in item_values():
        for bits, signed in ((32, 0), (8, 0), (8, 1)):
            if k == "signed" and bits == 32 and not deep:
                continue
            vals.append([bits, v if k == "signed" else signed, 5, {k: v}])
    small = [("tsamp", 0.5), ("nbits", 32), ("nchans", 1), ("src_raj", 123456.7), ("src_dej", -1.5), ("refdm", 3.25), ("source_name", "S")]
    small8 = [("tsamp", 0.5), ("nbits", 8), ("nchans", 1), ("src_raj", 1.25), ("src_dej", -10203.5), ("signed", 1)]
    big = fx.sp_items(telescope="Parkes", nsamples=11, period=0.3, signed=0, filename="x.fil", bandwidth=400.0)
    n = len(big)
    ordb = [[(i + r) % n for i in range(n)] for r in range(n)] + [[(r - i) % n for i in range(n)] for r in range(n)]
    for a, b in itertools.combinations(range(n), 2):
        o = list(range(n)); o[a], o[b] = o[b], o[a]
        ordb.append(o)
    p7 = [list(o) for o in itertools.permutations(range(7))]
    if not deep:
        p7 = [o for o in p7 if o[6] in (0, 6)] + [o for o in p7 if o[0] == 6][:240]
    orders = [dict(base=small, orders=c) for c in chunk(p7, 60)] + [dict(base=small8, orders=c) for c in chunk([list(o) for o in itertools.permutations(range(6))], 60)] + [dict(base=big, orders=c) for c in chunk(ordb, 60)]
    H = [0, 1, 11, 23] ; M = [0, 1, 30, 59]; S = [0.0, 0.5, 1.0, 59.99]
    ras = [h * 10000.0 + m * 100 + s for h in H for m in M for s in S]
    decs = [sg * (d * 10000.0 + m * 100 + s) for d in (0, 1, 45, 89) for m in M for s in S for sg in (1, -1)]
    co = [[ras[i], decs[j]] for i in range(len(ras)) for j in range(len(decs)) if deep or (i * 7 + j) % 16 == 0 or i == 5 or j in (3, 9)]
    sizes = [[32, 0, n, t] for n in list(range(1, 40)) + [1000, 1023, 4097] for t in range(4)] + [[8, s, n, 0] for s in (0, 1) for n in list(range(1, 40)) + [255, 256, 257, 1000, 4099]]
    sizes += [[b, s, n, t] for b, s, t in ((32, 0, 0), (32, 0, 3), (8, 0, 0), (8, 1, 0)) for n in (65535, 65537, (1 << 20) + 1) + (((1 << 24) + 3,) if deep else ())]
    fe = [[f, e] for f in ("std", "ef", "ei", "es", "oi") for e in ("none", "f", "i", "s", "mf")]
    seqs = [[a] for a in fe] + [[a, b] for a in fe for b in fe]
    if deep:
        seqs += [[a, b, c] for a in fe for b in fe for c in fe]
    return [Space("values", [dict(items=c) for c in chunk(vals, 20)], ev_values, "every standard key, several values, three data types"), Space("orders", orders, ev_orders, "orders of header keys"),
            Space("coordinates", [dict(coords=c) for c in chunk(co, 20)], ev_coords, "sky positions"), Space("sizes", [dict(items=c) for c in chunk(sizes, 5)], ev_sizes, "data sizes with partial samples"),
            Space("cut", [dict(header=h) for h in HEADERS], ev_cut, "headers cut at every byte"), Space("malformed", [dict()], ev_bad, "files to refuse"),
            Space("extra keys", [dict(seqs=c) for c in chunk(seqs, 25)], ev_seq, "sequences of calls with extra keys", setup=None)]
