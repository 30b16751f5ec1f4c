"""Generators of input files and observation-like objects used by several checks."""
import os, struct
import numpy as np

# ---------------------------------------------------------------- PRESTO

def inf_text(basename="fake", telescope="Parkes", instrument="Multibeam", source="Pulsar", raj="00:00:01.0000", decj="-00:00:01.0000",
             observer="Kenji", mjd="59000.000000", bary="1", nsamp=1024, tsamp="6.4e-05", breaks=(), em="Radio", fov="3600", dm="0.0",
             fbot="1182.1953125", bandwidth="400", nchan="1024", cbw="0.390625", analyst="Space Sheriff Gyaban", energy="2.0", bandpass="5.0",
             notes="    Input filterbank samples have 2 bits.\n"):
    L = []
    def add(label, val):
        L.append(f" {label:<39s}=  {val}")
    add("Data file name without suffix", basename)
    add("Telescope used", telescope)
    add("Instrument used", instrument)
    add("Object being observed", source)
    add("J2000 Right Ascension (hh:mm:ss.ssss)", raj)
    add("J2000 Declination     (dd:mm:ss.ssss)", decj)
    add("Data observed by", observer)
    add("Epoch of observation (MJD)", mjd)
    add("Barycentered?           (1 yes, 0 no)", bary)
    add("Number of bins in the time series", nsamp)
    add("Width of each time series bin (sec)", tsamp)
    add("Any breaks in the data? (1 yes, 0 no)", 1 if breaks else 0)
    for i, (a, b) in enumerate(breaks):
        add(f"On/Off bin pair #{i + 1:3d}", f"{a:<11}, {b}")
    add("Type of observation (EM band)", em)
    if em == "Radio":
        add("Beam diameter (arcsec)", fov)
        add("Dispersion measure (cm-3 pc)", dm)
        add("Central freq of low channel (MHz)", fbot)
        add("Total bandwidth (MHz)", bandwidth)
        add("Number of channels", nchan)
        add("Channel bandwidth (MHz)", cbw)
        add("Data analyzed by", analyst)
    else:
        add("Field-of-view diameter (arcsec)", fov)
        add("Central energy (kev)", energy)
        add("Energy bandpass (kev)", bandpass)
        add("Data analyzed by", analyst)
    return "\n".join(L) + "\n Any additional notes:\n" + notes


def write_presto(dirname, basename, data, tsamp, dm, **kw):
    """Writes basename.inf / .dat, returns the path of the .inf"""
    inf = os.path.join(dirname, basename + ".inf")
    data = np.asarray(data, dtype=np.float32)
    with open(inf, "w") as f:
        f.write(inf_text(basename=basename, nsamp=data.size, tsamp=repr(float(tsamp)), dm=repr(float(dm)), **kw))
    data.tofile(os.path.join(dirname, basename + ".dat"))
    return inf

# ---------------------------------------------------------------- SIGPROC

INT = ("telescope_id", "machine_id", "data_type", "barycentric", "pulsarcentric", "nbits", "nsamples", "nchans", "nifs", "nbeams", "ibeam", "hdrlen",
       "orig_hdrlen", "new_hdrlen", "sampsize")
STR = ("filename", "telescope", "rawdatafile", "source_name", "obs_date", "obs_time")
BOOL = ("signed",)


def sp_str(s):
    b = s.encode()
    return struct.pack("i", len(b)) + b


def sp_header(items, types=None):
    """items: list of (key, value), in this order. types: overrides {key: 'i'|'d'|'s'|'B'}"""
    out = sp_str("HEADER_START")
    for k, v in items:
        t = (types or {}).get(k) or ("i" if k in INT else "s" if k in STR else "B" if k in BOOL else "d")
        out += sp_str(k)
        out += sp_str(v) if t == "s" else struct.pack(t, v)
    return out + sp_str("HEADER_END")


def sp_items(**kw):
    d = dict(telescope_id=4, machine_id=10, data_type=2, rawdatafile="raw.fil", source_name="Pulsar", barycentric=0, src_raj=1.0, src_dej=-1.0,
             tstart=59000.0, tsamp=64e-6, nbits=32, fch1=1581.8, foff=-0.39, nchans=1, nifs=1, refdm=0.0)
    d.update(kw)
    return [(k, v) for k, v in d.items() if v is not None]


def write_sigproc(dirname, basename, data, tsamp, dm, **kw):
    path = os.path.join(dirname, basename + ".tim")
    with open(path, "wb") as f:
        f.write(sp_header(sp_items(tsamp=float(tsamp), refdm=dm if dm is None else float(dm), **kw)))
        f.write(np.asarray(data, dtype=np.float32).tobytes())
    return path

# ---------------------------------------------------------------- objects

def pulse_series(n, period, width, amp, seed=1, phase=0.3):
    """Deterministic noise plus a boxcar pulse train; period and width in samples."""
    rng = np.random.RandomState(seed)
    x = rng.normal(size=n)
    ph = (np.arange(n) / period - phase) % 1.0
    x[ph < width / period] += amp
    return x.astype(np.float32)


def canon(o, depth=0):
    """Hashable, exact description of a result (type, shape, dtype and bytes of every value in it)."""
    import pandas
    from astropy.coordinates import SkyCoord
    if depth > 12:
        return "deep"
    if isinstance(o, np.ndarray):
        return ("arr", str(o.dtype), o.shape, np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, pandas.DataFrame):
        return ("df", tuple(map(str, o.columns)), tuple(canon(o[c].values, depth + 1) for c in o.columns))
    if isinstance(o, SkyCoord):
        return ("coord", canon(np.asarray(o.icrs.ra.deg)), canon(np.asarray(o.icrs.dec.deg)))
    if isinstance(o, dict):
        return ("dict", tuple(sorted((str(k), canon(v, depth + 1)) for k, v in o.items())), canon_attrs(o, depth))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(canon(v, depth + 1) for v in o), canon_attrs(o, depth))
    if isinstance(o, (bool, int, str, bytes)) or o is None:
        return (type(o).__name__, o)
    if isinstance(o, (float, np.floating)):
        return (type(o).__name__, repr(float(o)))
    if isinstance(o, np.integer):
        return (type(o).__name__, int(o))
    if isinstance(o, np.poly1d):
        return ("poly", canon(o.coefficients))
    if isinstance(o, BaseException):
        return ("exc", type(o).__name__)
    if hasattr(o, "__dict__"):
        return (type(o).__name__, canon_attrs(o, depth))
    return repr(o)


def canon_attrs(o, depth):
    d = getattr(o, "__dict__", None)
    if not d:
        return ()
    return tuple(sorted((k, canon(v, depth + 1)) for k, v in d.items()))
