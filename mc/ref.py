"""Independent reference definitions (float64 / exact rationals), written from the documentation."""
import math
from fractions import Fraction
import numpy as np

# ---------------------------------------------------------------- downsampling

def ds_size_candidates(n, f):
    """Acceptable output sizes of floor(n / f): both sides of a rounding-error tie."""
    q = n / f
    k = math.floor(q)
    out = {k}
    if q - k < 1e-9 * max(1, q):
        out.add(k - 1 if k > 1 else k)
    if k + 1 - q < 1e-9 * max(1, q):
        out.add(k + 1)
    # exact value decides unless n/f is within rounding of an integer
    return out


def ds_weights(n, f, m):
    """(m, n) matrix of overlap lengths of [k f, (k+1) f) with [i, i+1), in float64."""
    k = np.arange(m, dtype=float)[:, None]
    i = np.arange(n, dtype=float)[None, :]
    lo = np.maximum(k * f, i)
    hi = np.minimum((k + 1) * f, i + 1)
    return np.maximum(hi - lo, 0.0)


def downsample(x, f, m=None):
    x = np.asarray(x, dtype=float)
    if m is None:
        m = math.floor(x.size / f)
    return ds_weights(x.size, f, m) @ x


def ds_exact_weights_row(n, f, k):
    """Exact rational weights of output sample k, f a Fraction."""
    w = {}
    lo, hi = k * f, (k + 1) * f
    i = math.floor(lo)
    while i < hi and i < n:
        a = max(lo, Fraction(i)); b = min(hi, Fraction(i + 1))
        if b > a:
            w[i] = b - a
        i += 1
    return w


def noise_variance_formula(n, f):
    """Mean variance of unit white noise after downsampling n samples by f, boundary phases uniform."""
    r = abs(f - round(f))
    x = math.floor(n / f) * r
    if x > 1:
        return f - 1.0 / 3.0
    return f - x + 2.0 / 3.0 * x * x


def noise_variance_exact(n, f, used=None):
    m = math.floor(n / f)
    w = ds_weights(n, f, m)
    v = (w ** 2).sum(axis=1)
    if used:
        v = v[:used]
    return float(v.mean())

# ---------------------------------------------------------------- boxcar S/N

def boxcar_snr(profile, w, stdnoise=1.0):
    p = np.asarray(profile, dtype=float)
    b = p.size
    h = math.sqrt((b - w) / (b * w))
    B = h * w / (b - w)
    s = p.sum()
    ext = np.concatenate((p, p[:w]))
    c = np.concatenate(([0.0], np.cumsum(ext)))
    best = max(c[i + w] - c[i] for i in range(b))
    return ((h + B) * best - B * s) / stdnoise


def boxcar_snr_block(block, widths, stdnoise=1.0):
    """Vectorised: block (m, b) -> (m, nw)."""
    p = np.asarray(block, dtype=float)
    m, b = p.shape
    out = np.empty((m, len(widths)))
    s = p.sum(axis=1)
    c = np.concatenate((np.zeros((m, 1)), np.cumsum(np.concatenate((p, p), axis=1), axis=1)), axis=1)
    for k, w in enumerate(widths):
        w = int(w)
        h = math.sqrt((b - w) / (b * w))
        B = h * w / (b - w)
        best = (c[:, w:w + b] - c[:, :b]).max(axis=1)
        out[:, k] = ((h + B) * best - B * s) / stdnoise
    return out

# ---------------------------------------------------------------- running medians

def running_median(x, w):
    x = np.asarray(x)
    h = w // 2
    e = np.concatenate(([x[0]] * h, x, [x[-1]] * h))
    return np.array([np.sort(e[i:i + w])[w // 2] for i in range(x.size)], dtype=x.dtype)


def fast_running_median(x, w, minpts):
    """None if the request must be refused."""
    x = np.asarray(x)
    sf = int(max(1, w / float(minpts)))
    if sf == 1:
        if w % 2 == 0:
            w += 1
        if not w < x.size:
            return None
        return running_median(x.astype(np.float32), w).astype(float)
    n = x.size // sf
    if not minpts < n:
        return None
    low = np.array([x[i * sf:(i + 1) * sf].astype(float).mean() for i in range(n)])
    med = running_median(low, minpts)
    xl = np.arange(n) * sf + 0.5 * (sf - 1)
    return np.interp(np.arange(x.size), xl, med)

# ---------------------------------------------------------------- FFA

_halves = {}

def nearest(a, b):
    """Set of integers nearest to the rational a/b (two of them on an exact tie)."""
    q = Fraction(a, b)
    f = math.floor(q)
    d = q - f
    if d < Fraction(1, 2):
        return (f,)
    if d > Fraction(1, 2):
        return (f + 1,)
    return (f + 1, f)


def probe_paths(ffa2, m):
    """Extracts the (m, m) table path[s, i] of drift paths of the implementation for m rows, using
    transforms of position-coded impulses.  Returns None if the output is not one value per row and
    column as a drift path would give."""
    p = m + 1
    # input row i holds weight c(i) in column p-1 ... rotating left by d moves column j to j - d
    outs = []
    i = np.arange(m)
    codes = [np.ones(m), i.astype(float), (i * i) % 4096, (i * i) // 4096]
    for c in codes:
        x = np.zeros((m, p), dtype=np.float32)
        x[:, p - 1] = c
        outs.append(np.asarray(ffa2(x), dtype=float))
    return outs


def paths_from_probe(outs, m):
    """From probe outputs derive path[s, i], assuming the path is monotone with unit steps (so that
    rows hitting one column are consecutive): counts give the runs, other codes verify them."""
    p = m + 1
    cnt, s1, s2, s3 = outs
    paths = np.full((m, m), -1, dtype=int)
    for s in range(m):
        c = cnt[s]
        if (c < 0).any() or c.sum() != m:
            return None, (s, "row does not contain every input row exactly once")
        row = 0
        # column of shift d is p-1-d
        for d in range(p):
            k = int(c[p - 1 - d])
            if k != c[p - 1 - d]:
                return None, (s, "non-integer weight")
            if k:
                ids = np.arange(row, row + k)
                if row + k > m:
                    return None, (s, "too many rows")
                paths[s, row:row + k] = d
                if s1[s][p - 1 - d] != ids.sum() or s2[s][p - 1 - d] != ((ids * ids) % 4096).sum() \
                        or s3[s][p - 1 - d] != ((ids * ids) // 4096).sum():
                    return None, (s, "input rows are not summed along a non-decreasing path")
                row += k
    return paths, None


def check_path_structure(m, table, get_table):
    """Checks that table[m] is built from the tables of its halves with nearest-integer shares.
    Returns an error string or None."""
    if m == 1:
        return None if table[0, 0] == 0 else "m = 1: path is not 0"
    mh = m >> 1
    mt = m - mh
    H, T = get_table(mh), get_table(mt)
    for s in range(m):
        d = table[s]
        ok = False
        for h in nearest((mh - 1) * s, m - 1):
            if not (d[:mh] == H[h]).all():
                continue
            for t in nearest((mt - 1) * s, m - 1):
                off = s - t
                if (d[mh:] - off == T[t]).all():
                    ok = True
        if not ok:
            return f"m = {m}, s = {s}: path {d.tolist()} is not made of the two halves' nearest-integer drift paths"
    return None


class PathBook:
    """Drift path tables of the implementation, structurally validated when asked."""
    def __init__(self, ffa2):
        self.ffa2, self.t = ffa2, {}

    def get(self, m):
        if m not in self.t:
            outs = probe_paths(self.ffa2, m)
            paths, err = paths_from_probe(outs, m)
            if err:
                from .engine import Violation
                raise Violation(f"FFA of {m} rows, output row {err[0]}: {err[1]}")
            self.t[m] = paths
        return self.t[m]

    def validated(self, m, _seen=None):
        """get(m) after checking the whole recursion below m."""
        tab = self.get(m)
        key = ("ok", m)
        if key not in self.t:
            if m > 1:
                self.validated(m >> 1)
                self.validated(m - (m >> 1))
            err = check_path_structure(m, tab, self.get)
            if err:
                from .engine import Violation
                raise Violation(err)
            self.t[key] = True
        return tab


def ffa_apply(x, table):
    """Apply a path table to (m, p) data in float64."""
    x = np.asarray(x, dtype=float)
    m, p = x.shape
    out = np.zeros((m, p))
    cols = np.arange(p)
    for s in range(m):
        for i in range(m):
            out[s] += x[i, (cols + table[s, i]) % p]
    return out


def width_trials(nbins, ducy_max=0.20, wtsp=1.5):
    wmax = int(max(1, ducy_max * nbins))
    out, w = [], 1
    while w <= wmax:
        out.append(w)
        w = max(math.floor(wtsp * w), w + 1)
    return out
