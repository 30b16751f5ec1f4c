"""C18: harmonic relation and harmonic flagging."""
import itertools, math, os
from fractions import Fraction
from types import SimpleNamespace
import numpy as np
from .. import fixtures as fx, pipe
from ..engine import Space, Violation, HarnessError, need

PROP = "C18"
LEVEL = "exploration"
RULE = ("pairs: all frequency ratios p/q of a grid x frequency offsets, DM offsets and S/N offsets on both sides of each limit x limits x denominators x both orders, against a brute-force search of the closest fraction; "
        "sets: all subsets of up to 4 (thorough 5) signals of several grids of harmonically related and unrelated signals x flagging limits x orders of detection, through complete pipeline runs on injected peaks, reading the cluster table")
ASSUMPTIONS = ["S/N of distinct clusters differ", "distances within 1e-6 (relative) of a limit and exactly equidistant fractions are not classified",
               "distances are those documented by hdiag(): phase drift in pulse widths of the faster signal, dispersion delay (4.15e3) in the shorter pulse width, S/N against F.snr / sqrt(p q)"]

_dir = None


def closest(r, dmax):
    """All fractions p/q, q <= dmax, closest to the float r (exactly)."""
    R = Fraction(r)
    best, out = None, set()
    for q in range(1, dmax + 1):
        p0 = math.floor(R * q)
        for p in (p0, p0 + 1):
            if p <= 0:
                continue
            d = abs(Fraction(p, q) - R)
            if best is None or d < best:
                best, out = d, {Fraction(p, q)}
            elif d == best:
                out.add(Fraction(p, q))
    return out


def relation(F, H, tobs, fmin, fmax, kw):
    """(related or None if undecided, fraction H/F)"""
    slow, fast = (F, H) if F.freq <= H.freq else (H, F)
    fr = closest(fast.freq / slow.freq, kw.get("denom_max", 100))
    if len(fr) != 1:
        return None, None
    fr = fr.pop()
    duc = {fast.ducy} if F.freq != H.freq else {F.ducy, H.ducy}
    dph = abs(float(fr * Fraction(slow.freq) - Fraction(fast.freq))) * tobs / fast.ducy
    frac = fr if H is fast else 1 / fr
    ddm = abs(F.dm - H.dm) * 4.15e3 * abs(fmin ** -2 - fmax ** -2) / min(F.ducy / F.freq, H.ducy / H.freq)
    dsn = abs(H.snr - F.snr / math.sqrt(frac.numerator * frac.denominator))
    rel = True
    for d, lim, err in ((dph, kw.get("phase_distance_max", 1.0), fast.freq * tobs / fast.ducy * 1e-14), (ddm, kw.get("dm_distance_max", 3.0), 0), (dsn, kw.get("snr_distance_max", 3.0), 0)):
        if abs(d - lim) <= 1e-6 * lim + err:
            return None, frac
        rel = rel and d <= lim
    return rel, frac


def sig(freq, snr, dm=0.0, ducy=0.05):
    return SimpleNamespace(freq=freq, snr=snr, dm=dm, ducy=ducy, period=1.0 / freq)


def ev_pairs(case, ctx):
    from riptide.pipeline.harmonic_testing import htest
    tobs, fmin, fmax = case["tobs"], 1200.0, 1500.0
    kdm = 4.15e3 * (fmin ** -2 - fmax ** -2)
    f0 = case["f0"]
    for p, q in case["ratios"]:
        for kw in case["kws"]:
            pm, dmm, sm = kw.get("phase_distance_max", 1.0), kw.get("dm_distance_max", 3.0), kw.get("snr_distance_max", 3.0)
            for dF, dH in ((0.05, 0.05), (0.02, 0.1), (0.3, 0.01)):
                for op in (0.0, 0.9, 1.1, -0.9, -1.1):
                    # offset of the ratio for a phase distance of op limits
                    fh = f0 * p / q
                    duc = dH if fh > f0 else dF
                    shift = op * pm * duc / tobs
                    fh = fh + shift if fh >= f0 else (f0 + shift) * p / q
                    for od in (0.0, 0.9, 1.1):
                        ddm = od * dmm * min(dF / f0, dH / fh) / kdm
                        for os_ in (0.0, 0.9, 1.1, -0.9, -1.1):
                            if (op != 0) + (od != 0) + (os_ != 0) > 1 and not case["full"] and (p, q) != (2, 1):
                                continue
                            F = sig(f0, 30.0, 20.0, dF)
                            H = sig(fh, 30.0 / math.sqrt(p * q) + os_ * sm, 20.0 + ddm, dH)
                            for a, b in ((F, H), (H, F)):
                                exp, frac = relation(a, b, tobs, fmin, fmax, kw)
                                got = htest(a, b, tobs, fmin, fmax, **kw)
                                need(isinstance(got, tuple) and len(got) == 2, "htest returned %s", got)
                                msg = f"F = {a}, H = {b}, tobs {tobs}, {kw}"
                                if frac is not None:
                                    need(Fraction(got[1]) == frac, "%s: fraction %s, the closest one is %s", msg, got[1], frac)
                                if exp is not None:
                                    need(bool(got[0]) == exp, "%s: related = %s, expected %s (fraction %s)", msg, got[0], exp, frac)
                                ctx.ev(1, nontrivial=bool(exp))
                                ctx.outcome((exp, frac))


def ev_fractions(case, ctx):
    """Closest bounded fraction for many ratios, exactly rational or not."""
    from riptide.pipeline.harmonic_testing import htest
    for r in case["ratios"]:
        for dmax in case["dmax"]:
            for inv in (False, True):
                F, H = sig(1.0, 10.0), sig(r, 9.0)
                if inv:
                    F, H = H, F
                fr = closest(max(F.freq, H.freq) / min(F.freq, H.freq), dmax)
                fr = {f if H.freq >= F.freq else 1 / f for f in fr}
                got = htest(F, H, 100.0, 1200.0, 1500.0, denom_max=dmax)[1]
                need(Fraction(got) in fr, "frequencies %s, %s, denominator up to %s: fraction %s, closest is %s", F.freq, H.freq, dmax, got, fr)
                ctx.ev(1)
                ctx.outcome(str(got))


# ---------------------------------------------------------------- sets of clusters

DMS = [0.0, 60.0, 300.0]
NS = [800, 900, 1100]
TS = 0.005


def prepare(src):
    global _dir
    from ..build import scratch
    _dir = scratch("riptide-c18-")
    rng = np.random.RandomState(5)
    for dm, n in zip(DMS, NS):
        fx.write_presto(_dir, f"d{int(dm)}", rng.normal(size=n), TS, dm, fbot="1200.0", nchan="16", cbw="10.0", bandwidth="160")


TOBS = NS[1] * TS
GRIDS = {
    # harmonics of 1 Hz with about the expected S/N, a subharmonic, an unrelated signal
    "family": [(1.0, 30.0, 0.0, .1), (2.0, 21.0, 0.0, .1), (3.0, 18.0, 0.0, .1), (0.5, 22.5, 0.0, .1), (1.5, 12.5, 0.0, .1), (4.0, 15.2, 0.0, .1), (1.37, 25.0, 0.0, .05), (6.0, 12.0, 0.0, .1)],
    # chains: related to a flagged one, not (by S/N) to its parent
    "chain": [(1.0, 16.0, 0.0, .1), (2.0, 13.0, 0.0, .1), (4.0, 10.5, 0.0, .1), (8.0, 8.0, 0.0, .1), (16.0, 6.5, 0.0, .1), (0.5, 12.0, 0.0, .1), (3.0, 9.5, 0.0, .1)],
    # same S/N scale, different DM and frequency offsets
    "dm": [(1.0, 20.0, 0.0, .05), (2.0, 14.5, 60.0, .05), (2.0 + 0.09, 15.5, 0.0, .05), (3.0, 11.9, 300.0, .05), (3.0 - 0.09, 13.0, 0.0, .1), (4.0, 10.3, 60.0, .2), (1.0 + 0.09, 19.0, 300.0, .05)],
    # two possible parents
    "two": [(1.0, 12.0, 0.0, .1), (1.5, 11.5, 0.0, .1), (3.0, 9.0, 0.0, .1), (6.0, 7.0, 0.0, .1), (2.0, 10.0, 0.0, .1), (0.75, 11.0, 0.0, .1), (4.5, 8.0, 0.0, .1)],
}
# many signals: harmonics of four unrelated frequencies, and unrelated ones
_r = np.random.RandomState(11)
GRIDS["many"] = [(f0 * (p / q) * (1 + 1e-6 * k), round(s0 / math.sqrt(p * q) + 0.37 * _r.uniform(), 6) if (p, q) != (1, 1) else s0, DMS[k % 2], .1)
                 for k, f0, s0 in ((0, 1.0, 90.0), (1, 0.6180339, 70.5), (2, 1.7320508, 55.25), (3, 0.3 * math.e, 120.75)) for p in range(1, 16) for q in (1, 2, 3) if math.gcd(p, q) == 1]
GRIDS["many"] += [(float(f), round(float(s), 6), DMS[0], .05) for f, s in zip(_r.uniform(0.25, 20.0, size=60), _r.uniform(6.5, 60.0, size=60))]
LIMITS = [dict(denom_max=100, phase_distance_max=1.0, dm_distance_max=3.0, snr_distance_max=3.0), dict(denom_max=2, phase_distance_max=1.0, dm_distance_max=30.0, snr_distance_max=3.0),
          dict(denom_max=1, phase_distance_max=4.0, dm_distance_max=0.01, snr_distance_max=6.0), dict(denom_max=10, phase_distance_max=0.2, dm_distance_max=1.0, snr_distance_max=1.0)]


def ev_sets(case, ctx):
    from riptide.pipeline.pipeline import Pipeline
    out = pipe.fresh(os.path.join(_dir, f"o{os.getpid()}"))
    files = [os.path.join(_dir, f"d{int(d)}.inf") for d in DMS]
    lim = LIMITS[case["lim"]]
    for sub in case["subs"]:
        sigs = [GRIDS[case["grid"]][i] for i in sub]
        for order in case["orders"]:
            ss = sigs if order == 0 else sigs[::-1] if order == 1 else sigs[1:] + sigs[:1]
            bydm = {d: [] for d in DMS}
            for f, s, dm, duc in ss:
                bydm[dm].append(pipe.peak(freq=f, snr=s, dm=dm, ducy=duc))
            if case["extra"]:
                # fainter detections of the same signals in other DM trials and widths
                for k, (f, s, dm, duc) in enumerate(ss):
                    bydm[DMS[(DMS.index(dm) + 1 + k) % 3]].insert(0, pipe.peak(freq=f + (0.003, -0.002)[k % 2], snr=s * 0.9 - 0.01 * k, dm=DMS[(DMS.index(dm) + 1 + k) % 3], ducy=duc * 2))
            conf = pipe.make_conf(harm=lim, filters=dict(max_number=1), radius=0.08)
            pl = Pipeline(conf)
            pipe.fresh(out)
            with pipe.injected(bydm):
                pl.process(files, out)
            rows = pipe.read_csv(os.path.join(out, "clusters.csv"))
            msg = f"signals (freq, S/N, DM, duty cycle) {ss}, limits {lim}, extra detections {case['extra']}"
            C = sorted([pipe.peak(freq=f, snr=s, dm=dm, ducy=duc) for f, s, dm, duc in ss], key=lambda c: -c.snr)
            need(len(rows) == len(C), "%s: %s clusters: %s", msg, len(rows), rows)
            need([int(r["rank"]) for r in rows] == list(range(len(C))), "%s: ranks in the table: %s", msg, [r["rank"] for r in rows])
            need(all(abs(float(r["snr"]) - c.snr) < 1e-6 and abs(float(r["freq"]) - c.freq) < 1e-6 and abs(float(r["dm"]) - c.dm) < 1e-6 for r, c in zip(rows, C)), "%s: cluster table %s", msg, rows)
            parent = [None] * len(C)
            frac = [None] * len(C)
            ok = True
            for j, H in enumerate(C):
                for i, F in enumerate(C[:j]):
                    if parent[i] is None and parent[j] is None:
                        rel, fr = relation(F, H, TOBS, 1200.0, 1360.0, lim)
                        if rel is None:
                            ok = False
                        elif rel:
                            parent[j], frac[j] = i, fr
            if not ok:
                continue
            for j, r in enumerate(rows):
                got = (int(float(r["fundamental_rank"])), int(float(r["hfrac_num"])), int(float(r["hfrac_denom"])))
                exp = (j, 0, 0) if parent[j] is None else (parent[j], frac[j].numerator, frac[j].denominator)
                need(got == exp, "%s: cluster of rank %s (freq %s) has (fundamental rank, fraction) %s, expected %s", msg, j, C[j].freq, got, exp)
                if got[0] != j:
                    need(int(float(rows[got[0]]["fundamental_rank"])) == got[0], "%s: the parent of rank %s is itself a harmonic", msg, j)
            ctx.ev(1, nontrivial=any(p is not None for p in parent))
            ctx.outcome((case["grid"], tuple(parent), tuple(map(str, frac))))


def ev_errors(case, ctx):
    from riptide.pipeline.harmonic_testing import htest
    F, H = sig(1.0, 10.0), sig(2.0, 9.0)
    for tobs, fmin, fmax in ((0.0, 1200.0, 1500.0), (-1.0, 1200.0, 1500.0), (10.0, 1500.0, 1200.0), (10.0, 1500.0, 1500.0)):
        try:
            htest(F, H, tobs, fmin, fmax)
        except ValueError:
            ctx.ev(1)
            continue
        raise Violation(f"tobs {tobs}, band {fmin}..{fmax} accepted")


def spaces(tier):
    deep = tier == "thorough"
    N = 13 if deep else 7
    ratios = [(p, q) for p in range(1, N) for q in range(1, N) if math.gcd(p, q) == 1] + [(31, 7), (7, 31), (97, 89), (100, 99)]
    kws = [{}, dict(denom_max=3), dict(phase_distance_max=0.25, dm_distance_max=0.5, snr_distance_max=1.0), dict(denom_max=7, phase_distance_max=3.0, dm_distance_max=10.0, snr_distance_max=5.0)]
    pairs = [dict(ratios=[r], kws=kws, f0=f0, tobs=t, full=deep) for r in ratios for f0, t in ((1.0, 500.0), (7.3, 2000.0), (0.013, 5000.0))]
    fr = []
    vals = [1 + i / 64 for i in range(0, 64 * 4, 3)] + [math.pi, math.e, math.sqrt(2), 1.0000001, 1.01, 99.5, 1000.3, 1.005, 1.00999] + [p / q for p in range(1, 30) for q in range(1, 30) if p > q]
    for k in range(0, len(vals), 24):
        fr.append(dict(ratios=vals[k:k + 24], dmax=[1, 2, 3, 5, 8, 10, 50, 100]))
    sets = []
    for g, sigs in GRIDS.items():
        if g == "many":
            # the signals kept are at least two clustering radii apart
            for n in (40, 90, len(sigs)):
                keep = []
                for i in range(n):
                    if all(abs(sigs[i][0] - sigs[j][0]) > 0.04 for j in keep):
                        keep.append(i)
                for lim in range(len(LIMITS)):
                    sets.append(dict(grid=g, lim=lim, extra=False, subs=[keep], orders=[0, 1] if n > 40 else [0, 1, 2]))
            continue
        subs = [s for r in range(1, 6 if deep else 5) for s in itertools.combinations(range(len(sigs)), r)] + [tuple(range(len(sigs)))]
        for lim in range(len(LIMITS)):
            for extra in (False, True):
                if not deep and extra and lim > 1:
                    continue
                for k in range(0, len(subs), 8):
                    sets.append(dict(grid=g, lim=lim, extra=extra, subs=subs[k:k + 8], orders=[0, 1, 2] if deep else [[0, 1, 2][(k // 8 + lim) % 3]]))
    return [Space("pairs", pairs, ev_pairs, "pairs of signals at both sides of each limit"), Space("fractions", fr, ev_fractions, "closest bounded fractions"),
            Space("sets", sets, ev_sets, "all subsets of grids of signals, through the pipeline"), Space("errors", [{}], ev_errors, "invalid arguments")]
