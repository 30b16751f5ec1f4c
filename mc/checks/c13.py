"""C13: PRESTO .inf files."""
import itertools, os, warnings
import numpy as np
from .. import fixtures as fx
from ..engine import Space, Violation, need

PROP = "C13"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of well-formed files over value sets per field, and of every truncation point, deleted line and malformed field, read by the real code"
RULE = ("all single and pairwise choices of field values, observing bands, numbers of on/off breaks and file names; every cut before the last required field, every deleted line, every required field "
        "malformed in each of a set of ways; the values read are compared with those written, by an independent writer and sexagesimal parser")
ASSUMPTIONS = ["the last required line states the analyst's name, so that a file cut within that name cannot be told from a complete one", "positions agree within 1e-9 degrees"]

_dir = None


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c13-")


BASE = dict(basename="fake", telescope="Parkes", instrument="Multibeam", source="Pulsar", raj="00:00:01.0000", decj="-00:00:01.0000", observer="Kenji", mjd="59000.000000", bary="1", nsamp="16",
            tsamp="6.4e-05", em="Radio", fov="3600", dm="12.5", fbot="1182.1953125", bandwidth="400", nchan="1024", cbw="0.390625", analyst="Space Sheriff", energy="2.0", bandpass="5.0")

# value as written -> value expected
VALUES = {
    "basename": ["fake", "a b", "J1234-5678_DM12.00", "x=y", "obs.2020"],
    "telescope": ["Parkes", "GBT", "None", "Artificial", "A = B", "Arecibo 305m"],
    "instrument": ["Multibeam", "", "GUPPI = x"],
    "source": ["Pulsar", "B1919+21", "47 Tuc", "a=b", "0"],
    "raj": ["00:00:01.0000", "12:34:56.7890", "23:59:59.9999", "05:00:00", "9:08:07.06", "00:00:00.0000"],
    "decj": ["-00:00:01.0000", "-00:00:00.1000", "00:00:00.0000", "+45:30:15.25", "-89:59:59.9900", "89:59:59.9", "-0:30:00", "12:00:01"],
    "observer": ["Kenji", "", "R. S. = T"],
    "mjd": ["59000.000000", "0.5", "51234.987654321098", "60000", "5.9e4"],
    "bary": ["1", "0"],
    "nsamp": ["16", "1", "3", "65537", "1048579"],
    "tsamp": ["6.4e-05", "0.000256", "1", "2.5E-1", "8.192e-05", "0.1"],
    "fov": ["3600", "981.5", "0.1"],
    "dm": ["12.5", "0", "0.0", "1234.567", "1e-3", "71.040000000000006"],
    "fbot": ["1182.1953125", "350", "4.1e2"],
    "bandwidth": ["400", "0.5", "288.1"],
    "nchan": ["1024", "1", "96"],
    "cbw": ["0.390625", "3", "-0.25"],
    "analyst": ["Space Sheriff", "", "x=y"],
    "energy": ["2.0", "0.35", "100"],
    "bandpass": ["5.0", "9.9e1"],
}
TYPES = dict(mjd=float, nsamp=int, tsamp=float, fov=float, dm=float, fbot=float, bandwidth=float, nchan=int, cbw=float, energy=float, bandpass=float)
KEYS = dict(source="source_name", bary="barycentered", fov="fov_arcsec", energy="central_energy_kev", bandpass="energy_bandpass_kev", em="em_band")
RADIO = ("dm", "fbot", "bandwidth", "nchan", "cbw")
HIGH = ("energy", "bandpass")
BREAKS = [(), ((0, 15),), ((0, 3), (8, 15)), tuple((100 * i, 100 * i + 49) for i in range(13)), ((0, 1), (12345678901, 12345678999)),
          tuple((7 * i, 7 * i + 3) for i in range(41)), tuple((11 * i, 11 * i + i % 9) for i in range(100)), tuple((11 * i, 11 * i + i % 9) for i in range(1003))]
BANDS = ["Radio", "X-ray", "Gamma"]


def sexag(s):
    neg = s.strip().startswith("-")
    p = [float(x) for x in s.strip().lstrip("+-").split(":")]
    v = p[0] + p[1] / 60 + (p[2] if len(p) > 2 else 0) / 3600
    return -v if neg else v


def expected(f, breaks):
    d = {}
    for k, v in f.items():
        if f["em"] == "Radio" and k in HIGH or f["em"] != "Radio" and k in RADIO:
            continue
        key = KEYS.get(k, k)
        d[key] = bool(int(v)) if k == "bary" else TYPES[k](v) if k in TYPES else v
    d["breaks"] = bool(breaks)
    d["onoff_pairs"] = [tuple(p) for p in breaks]
    return d


LABELS = [[("1 yes, 0 no", "1=yes, 0=no")], [("1 yes, 0 no", "1=yes, 0=no"), ("On/Off bin pair", "ON/OFF BIN PAIR"), ("low channel (MHz)", "low channel (Mhz)")], [("arcsec)", "asec=)"), ("(kev)", "(KeV)")]]


def text(f, breaks, notes="    Input filterbank samples have 2 bits.\n", labels=()):
    t = fx.inf_text(breaks=breaks, notes=notes, **f)
    for a, b in labels:
        t = "\n".join((l[:40].replace(a, b).ljust(40)[:40] + l[40:]) if len(l) > 40 and l[40] == "=" else l for l in t.split("\n"))
    return t


def cmp(got, exp, msg, ignore=()):
    for k, v in exp.items():
        need(k in got, "%s: no value for %s", msg, k)
        g = got[k]
        if k == "onoff_pairs":
            g = [tuple(p) for p in g]
        need(type(g) is type(v) or (isinstance(v, float) and isinstance(g, float)), "%s: %s is %r (%s), file states %r", msg, k, g, type(g).__name__, v)
        need(g == v, "%s: %s is %r, file states %r", msg, k, g, v)


def write(d, base, txt, dat=None):
    p = os.path.join(d, base + ".inf")
    with open(p, "w") as fo:
        fo.write(txt)
    if dat is not None:
        dat.tofile(os.path.join(d, base + ".dat"))
    return p


def workdir():
    d = os.path.join(_dir, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def load(fn):
    """(object, list of warnings)"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = fn()
    return r, [w for w in ws if issubclass(w.category, UserWarning)]


def check_file(path, f, breaks, dat, msg):
    import riptide
    from riptide.reading import PrestoInf
    exp = expected(f, breaks)
    inf = PrestoInf(path)
    cmp(inf, exp, msg + " (PrestoInf)")
    need(set(inf) == set(exp), "%s: keys %s, expected %s", msg, sorted(inf), sorted(exp))
    need(os.path.isabs(inf.fname) and os.path.samefile(inf.fname, path), "%s: path is %s", msg, inf.fname)
    ra, dec = sexag(f["raj"]) * 15, sexag(f["decj"])
    for src in (path, inf):
        md = riptide.Metadata.from_presto_inf(src)
        cmp(md, exp, msg + " (Metadata)")
        c = md["skycoord"]
        need(abs(c.icrs.ra.deg - ra) < 1e-9 and abs(c.icrs.dec.deg - dec) < 1e-9, "%s: position is %s %s deg, file states %s %s", msg, c.icrs.ra.deg, c.icrs.dec.deg, ra, dec)
        need(abs(inf.skycoord.icrs.ra.deg - ra) < 1e-9 and abs(inf.skycoord.icrs.dec.deg - dec) < 1e-9, "%s: position of PrestoInf", msg)
        need(os.path.isabs(md["fname"]) and os.path.samefile(md["fname"], path), "%s: metadata path is %s", msg, md["fname"])
        T = int(f["nsamp"]) * float(f["tsamp"])
        need(isinstance(md["tobs"], float) and abs(md["tobs"] - T) <= 1e-12 * T, "%s: tobs is %s, expected %s", msg, md["tobs"], T)
        if f["em"] != "Radio":
            need(md["dm"] is None, "%s: dm of high-energy data is %s", msg, md["dm"])
        need(exp == {k: ([tuple(p) for p in v] if k == "onoff_pairs" else v) for k, v in md.items() if k in exp}, "%s: metadata differ", msg)
    if dat is not None:
        ts, ws = load(lambda: riptide.TimeSeries.from_presto_inf(path))
        need(bool(ws) == (f["em"] != "Radio"), "%s: %d warnings for %s data", msg, len(ws), f["em"])
        need(ts.data.dtype == np.float32 and ts.data.tobytes() == dat.tobytes(), "%s: series is not the content of the .dat file", msg)
        need(ts.tsamp == float(f["tsamp"]), "%s: tsamp of the series is %s", msg, ts.tsamp)
        cmp(ts.metadata, exp, msg + " (TimeSeries)")
        L = dat.size * float(f["tsamp"])
        need(abs(ts.metadata["tobs"] - L) <= 1e-12 * L, "%s: tobs of the series is %s", msg, ts.metadata["tobs"])


def datfor(f):
    n = int(f["nsamp"])
    if n > (1 << 22) + 3:
        return None
    x = (np.arange(n) * 37 % 11 / 3.0 - 1).astype(np.float32)
    if n > 4:
        x[1:4] = np.nan, -np.inf, 1e-42
    return x


def ev_good(case, ctx):
    d = workdir()
    for ch, em, b, notes in case["items"]:
        f = dict(BASE, em=em, **ch)
        breaks = BREAKS[b]
        dat = datfor(f)
        for labels in ((),) if ch else ((), *LABELS):
            p = write(d, "t", text(f, breaks, notes, labels), dat)
            check_file(p, f, breaks, dat, f"{ch} {em} {len(breaks)} breaks{' labels ' + str(labels) if labels else ''}")
        ctx.ev(1)
        ctx.outcome(repr((ch, em, b)))


def ev_names(case, ctx):
    """Paths: dots, relative, symbolic links, other files next to it."""
    d = os.path.join(workdir(), case["dir"])
    os.makedirs(d, exist_ok=True)
    f = dict(BASE)
    good = datfor(f)
    other = good[::-1].copy() * 0 + 5
    for b in case["names"]:
        p = write(d, b, text(f, ()), good)
    for b in ("decoy", "a", "a.b.c.d", "inf", "fake"):
        if b not in case["names"]:
            other.tofile(os.path.join(d, b + ".dat"))
    old = os.getcwd()
    for b in case["names"]:
        p = os.path.join(d, b + ".inf")
        check_file(p, f, (), good, f"file {p}")
        os.chdir(d)
        try:
            check_file(b + ".inf", f, (), good, f"relative file {b}.inf in {case['dir']}")
            check_file("./" + b + ".inf", f, (), good, f"relative file ./{b}.inf")
        finally:
            os.chdir(old)
        os.chdir(os.path.dirname(d))
        try:
            check_file(os.path.join(os.path.basename(d), b + ".inf"), f, (), good, "relative directory")
            # path and header stay valid after the working directory changes
            from riptide.reading import PrestoInf
            inf = PrestoInf(os.path.join(os.path.basename(d), b + ".inf"))
            os.chdir("/")
            need(inf.load_data().tobytes() == good.tobytes(), "data of %s not found after a change of directory", p)
        finally:
            os.chdir(old)
        ctx.ev(4)
        ctx.outcome(p)


def refused(path, msg):
    import riptide
    from riptide.reading import PrestoInf
    for what, fn in (("PrestoInf + Metadata", lambda: riptide.Metadata.from_presto_inf(PrestoInf(path))), ("Metadata", lambda: riptide.Metadata.from_presto_inf(path)), ("TimeSeries", lambda: riptide.TimeSeries.from_presto_inf(path))):
        try:
            r = fn()
        except Exception:
            continue
        raise Violation(f"{msg}: {what} was read as {dict(getattr(r, 'metadata', r))}")


def ev_cut(case, ctx):
    d = workdir()
    f = dict(BASE, em=case["em"], source="Pulsar 1", analyst="Bob")
    breaks = BREAKS[case["breaks"]]
    full = text(f, breaks)
    dat = datfor(f)
    end = full.index(" Data analyzed by")
    end = full.index("=", end) + 1       # the last required line states the analyst
    for cut in range(case["part"], end, case["parts"]):
        p = write(d, "cut", full[:cut], dat)
        refused(p, f"{case['em']}, {len(breaks)} breaks: file cut at byte {cut} of {len(full)} ({full[max(0, cut - 20):cut]!r})")
        ctx.ev(1)
        ctx.outcome(cut)
    # the cuts after all required fields are read, with the right numbers
    for cut in range(full.index("\n", end) if case["part"] == 0 else len(full) + 1, len(full) + 1):
        p = write(d, "cut", full[:cut], dat)
        check_file(p, f, breaks, dat, f"file cut at byte {cut}, after the required fields")
        ctx.ev(1)


BADNUM = ["abc", "", "1.5x", "--3", "12:30", "1,2", "nil"]
BADINT = BADNUM + ["1.5", "1e3"]


def ev_bad(case, ctx):
    d = workdir()
    em, b = case["em"], case["breaks"]
    f = dict(BASE, em=em)
    breaks = BREAKS[b]
    dat = datfor(f)
    lines = text(f, breaks).split("\n")
    required = [i for i, l in enumerate(lines) if len(l) > 40 and l[40] == "="]
    def put(ls, msg):
        p = write(d, "bad", "\n".join(ls), dat)
        refused(p, f"{em}, {len(breaks)} breaks: {msg}")
        ctx.ev(1)
        ctx.outcome(msg)
    # the machinery's own baseline
    check_file(write(d, "bad", "\n".join(lines), dat), f, breaks, dat, "baseline")
    for i in required:
        if "On/Off" not in lines[i]:       # a file with one pair less is well-formed
            put(lines[:i] + lines[i + 1:], f"line {i} ({lines[i][:30]!r}) deleted")
        put(lines[:i] + [lines[i].replace("=", ":", 1)] + lines[i + 1:], f"line {i} without '='")
        put(lines[:i] + [lines[i][:39] + lines[i][40:]] + lines[i + 1:], f"line {i} with '=' in another column")
        put(lines[:i] + ["x" + lines[i]] + lines[i + 1:], f"line {i} shifted by one column")
        put(lines[:i] + [""] + lines[i + 1:], f"line {i} blank")
    fields = {"Epoch": BADNUM, "Barycentered": BADINT, "Number of bins": BADINT, "Width of": BADNUM, "Any breaks": BADINT, "Beam diam": BADNUM, "Field-of-view": BADNUM, "Dispersion": BADNUM + ["-5.0"],
              "Central freq": BADNUM, "Total bandw": BADNUM, "Number of channels": BADINT, "Channel bandw": BADNUM, "Central energy": BADNUM, "Energy bandp": BADNUM, "J2000 Right": ["abc", "", "1:2:3:4", "12:xx:00"],
              "J2000 Decl": ["abc", "", "1:2:3:4", "95:00:00"], "On/Off": ["1", "1;2", "a, b", "1, 2, 3", "", "1.5, 2"], "Type of obs": ["Optical", "radio", "", "IR", "UV", "Radio2"]}
    for i in required:
        for lab, bads in fields.items():
            if lines[i].strip().startswith(lab):
                for v in bads:
                    put(lines[:i] + [lines[i][:41] + "  " + v] + lines[i + 1:], f"{lines[i][:30].strip()} = {v!r}")
    for tel in ("None (Artificial Data Set)",):
        put(lines[:1] + [lines[1][:41] + "  " + tel] + lines[2:], "artificial data set")
    # an on/off pair line missing or too many with respect to the flag
    k = next(i for i in required if lines[i].strip().startswith("Any breaks"))
    if breaks:
        put(lines[:k] + [lines[k][:41] + "  0"] + lines[k + 1:], "breaks flag 0, but pairs listed")
    put(lines[:k + 1] + [lines[k + 1]] + lines[k + 1:] if not breaks else lines[:k + 1] + ["junk"] + lines[k + 1:], "extra line")
    for t in ("", "\n", "garbage", "\n" * 30):
        put([t], f"file content {t!r}")
    ctx.ev(1)
    # no .dat file
    import riptide
    p = write(d, "nodat", text(f, breaks))
    try:
        r = riptide.TimeSeries.from_presto_inf(p)
    except Exception:
        r = None
    need(r is None, "a series was loaded without .dat file")


def spaces(tier):
    deep = tier == "thorough"
    items = []
    notes = ["    Input filterbank samples have 2 bits.\n", "", "  a = b\n  line 2\n\n", " On/Off bin pair #  9                   =  5          , 6\n"]
    for em in BANDS:
        for b in range(len(BREAKS)):
            for nt in notes:
                items.append([{}, em, b, nt])
            for k, vs in VALUES.items():
                for v in vs:
                    items.append([{k: v}, em, b, notes[0]])
    ks = sorted(VALUES)
    for a, b in itertools.combinations(ks, 2):
        va, vb = (VALUES[a], VALUES[b]) if deep else (VALUES[a][1:3], VALUES[b][1:3])
        for x in va:
            for y in vb:
                items.append([{a: x, b: y}, "Radio", 0, notes[0]])
                if deep or a in HIGH or b in HIGH:
                    items.append([{a: x, b: y}, "X-ray", 2, notes[0]])
    good = [dict(items=items[i:i + 20]) for i in range(0, len(items), 20)]
    names = [dict(dir=d, names=n) for d in ("plain", "dir.inf", "a.b", "with space") for n in (["x"], ["a.b"], ["a", "a.b", "a.b.c"], ["x_DM1.20", "x_DM1.2"], ["data.dat"], ["inf.inf"])]
    cuts = [dict(em=em, breaks=b, part=p, parts=4) for em in BANDS for b in ((0, 1, 2, 3) if deep else (0, 2)) for p in range(4)]
    bad = [dict(em=em, breaks=b) for em in BANDS for b in (0, 1, 2)]
    return [Space("good", good, ev_good, "well-formed files: single and pairwise field values x band x breaks x notes"), Space("names", names, ev_names, "file and directory names, relative paths"),
            Space("cut", cuts, ev_cut, "files cut at every byte"), Space("malformed", bad, ev_bad, "deleted, shifted and malformed lines")]
