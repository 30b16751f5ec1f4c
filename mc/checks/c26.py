"""C26: Metadata."""
import copy, itertools, json
import numpy as np
from ..engine import Space, Violation, HarnessError, need

PROP = "C26"
LEVEL = "exploration"
RULE = ("every reserved key x a table of valid, boundary and invalid values; all presence/blank subsets of the reserved keys; extra keys with every kind of JSON and non-JSON value, nested; keys of other types; every edit of the "
        "source dictionary and of the metadata afterwards, in all orders up to two edits")
ASSUMPTIONS = ["NaN, infinities and numpy float32 scalars are not tested as reserved values", "values held by both (lists, dictionaries) may be the same objects: only entries are copied"]


def coord():
    from astropy.coordinates import SkyCoord
    return SkyCoord("06:05:04.3", "-01:02:03.4", unit=("hourangle", "deg"))


RES = ("source_name", "skycoord", "dm", "mjd", "tobs", "fname")
# token -> value; evaluated in the worker (values that are not JSON)
GOOD = {
    "source_name": ["", "J0000+0000", "été"], "fname": ["", "/a/b.inf"], "dm": [0.0, -0.0, 1e-9, 12.5, 1e6, np.float64(3.5)], "mjd": [0.0, 59000.25, np.float64(5e4)],
    "tobs": [1e-9, 1.0, 1e9, np.float64(2.0)], "skycoord": ["coord"],
}
BAD = {
    "source_name": [3, 1.5, True, b"abc", ["a"], {"a": 1}, ("a",)], "fname": [3, 0.0, b"abc", ["a"], {"a": 1}],
    "dm": [-1e-9, -1.0, 3, 0, "3.0", "abc", True, [1.0], {"a": 1.0}, 3j], "mjd": [-0.5, -59000.0, 59000, 0, "59000.0", False, [1.0], (1.0,)],
    "tobs": [0.0, -0.0, -1.0, 10, 0, "10.0", True, [10.0], {}], "skycoord": ["12:00:00 00:00:00", 3.5, [1.0, 2.0], (1.0, 2.0), {"ra": 1, "dec": 2}],
}
EXTRA_GOOD = [None, True, 0, -3, 2 ** 70, 1.5, -0.0, "text", "", [], {}, [1, [2, {"a": None}]], {"a": {"b": [1.0, "x"]}}, (1, 2), np.float64(2.5), {"1": 2}, [[], [[]]]]


def extra_bad():
    class Foo:
        pass
    return [object(), {1, 2}, frozenset(), b"bytes", 1j, Foo(), Foo, len, coord(), np.zeros(3), np.int64(3), np.float32(1.5), [1, {2}], {"a": {"b": b"x"}}, {"a": [object()]}, [coord()], range(3), {("a", "b"): 1}]


KEYS_BAD = [3, None, 1.5, b"bytes", ("a",), True, frozenset(), np.int64(4)]


def val(v):
    return coord() if isinstance(v, str) and v == "coord" else v


def build(d, valid, msg, ctx):
    from riptide import Metadata
    keep = dict(d)
    try:
        m = Metadata(d)
    except Exception as e:
        need(not valid, "%s: refused: %s: %s", msg, type(e).__name__, e)
        need(dict(d) == keep and list(d) == list(keep), "%s: the refused dictionary was modified", msg)
        ctx.ev(1)
        return None
    need(valid, "%s: accepted: %s", msg, dict(m))
    need(isinstance(m, dict) and m is not d, "%s: type %s", msg, type(m))
    need(list(d) == list(keep) and all(d[k] is keep[k] for k in keep), "%s: the given dictionary was modified: %s", msg, d)
    need(set(m) == set(d) | set(RES), "%s: keys %s", msg, sorted(m))
    for k in m:
        need(m[k] is d[k] or (type(m[k]) is type(d[k]) and m[k] == d[k]) if k in d else m[k] is None, "%s: %s reads %r", msg, k, m[k])
    ctx.ev(1, nontrivial=bool(d))
    ctx.outcome(msg)
    return m


def ev_values(case, ctx):
    k = case["key"]
    base = {"source_name": "x", "dm": 1.0, "mjd": 5e4, "tobs": 10.0, "fname": "f", "skycoord": coord(), "extra": [1, 2]}
    for v in GOOD[k] + [None]:
        build({k: val(v)}, True, f"{{{k}: {v!r}}}", ctx)
        build(dict(base, **{k: val(v)}), True, f"all keys, {k} = {v!r}", ctx)
    for v in BAD[k]:
        build({k: v}, False, f"{{{k}: {v!r}}}", ctx)
        build(dict(base, **{k: v}), False, f"all keys, {k} = {v!r}", ctx)
        # among blank other keys
        build(dict({q: None for q in RES if q != k}, **{k: v}), False, f"blanks, {k} = {v!r}", ctx)


def ev_pairs(case, ctx):
    """Two reserved keys: invalid as soon as one of the two is."""
    a, b = case["a"], case["b"]
    for va, oka in [(v, True) for v in GOOD[a][:2] + [None]] + [(v, False) for v in BAD[a]]:
        for vb, okb in [(v, True) for v in GOOD[b][:2] + [None]] + [(v, False) for v in BAD[b]]:
            build({a: val(va) if oka else va, b: val(vb) if okb else vb}, oka and okb, f"{{{a}: {va!r}, {b}: {vb!r}}}", ctx)


def ev_subsets(case, ctx):
    for st in itertools.product(("absent", "none", "value"), repeat=6):
        d = {}
        order = RES if case["order"] == 0 else RES[::-1]
        for k, s in zip(order, st):
            if s != "absent":
                d[k] = None if s == "none" else val(GOOD[k][0])
        if case["extra"]:
            d["nchan"] = 16
        build(d, True, f"keys {dict(zip(order, st))}, extra {case['extra']}", ctx)


def ev_extra(case, ctx):
    for key in ("nchan", "a b", "", "Tobs", "é"):
        for v in EXTRA_GOOD:
            build({key: v}, True, f"{{{key!r}: {v!r}}}", ctx)
            build({key: v, "dm": 3.0}, True, f"{{{key!r}: {v!r}, dm: 3.0}}", ctx)
        for v in extra_bad():
            build({key: v}, False, f"{{{key!r}: {v!r}}}", ctx)
            build({"dm": 3.0, "good": 1, key: v}, False, f"{{dm: 3.0, good: 1, {key!r}: {v!r}}}", ctx)
    for k in KEYS_BAD:
        for v in (1, "a", None, object()):
            build({k: v}, False, f"{{{k!r}: {v!r}}}", ctx)
            build({"dm": 3.0, k: v}, False, f"{{dm: 3.0, {k!r}: {v!r}}}", ctx)
            build({k: v, "x": [1]}, False, f"{{{k!r}: {v!r}, x: [1]}}", ctx)


OPS = {"set-dm": lambda d: d.__setitem__("dm", 99.0), "new": lambda d: d.__setitem__("brand_new", 1), "del-dm": lambda d: d.pop("dm"), "none": lambda d: d.__setitem__("source_name", None), "clear": lambda d: d.clear(),
       "update": lambda d: d.update(tobs=1.0, other="x")}


def ev_copy(case, ctx):
    from riptide import Metadata
    for seq in itertools.product([(w, o) for w in ("source", "metadata", "dict") for o in OPS], repeat=case["n"]):
        src = {"dm": 3.0, "source_name": "a", "tobs": 5.0, "extra": [1]}
        m = Metadata(src)
        td = m.to_dict()
        m2 = Metadata.from_dict(td)
        obj = {"source": src, "metadata": m, "dict": td}
        exp = {k: dict(v) for k, v in obj.items()}
        exp2 = dict(m2)
        for w, o in seq:
            try:
                OPS[o](obj[w])
            except KeyError:
                pass
            try:
                OPS[o](exp[w])
            except KeyError:
                pass
            need(all(dict(obj[k]) == exp[k] for k in obj) and dict(m2) == exp2, "edits %s: now source %s, metadata %s, to_dict() %s, from_dict() %s", seq, src, dict(m), td, dict(m2))
        fresh = Metadata({})
        need(dict(fresh) == {k: None for k in RES} and dict(Metadata()) == dict(fresh), "after edits %s, Metadata({}) reads %s", seq, dict(fresh))
        ctx.ev(1)
        ctx.outcome(tuple(seq))


def ev_default(case, ctx):
    """Default constructed metadata are never shared."""
    from riptide import Metadata
    a, b = Metadata(), Metadata()
    a["dm"] = 3.0
    a["new"] = 4
    need(b["dm"] is None and "new" not in b and "new" not in Metadata() and Metadata()["dm"] is None, "default metadata are shared")
    for bad in ([], None, 3, "abc", [("dm", 1.0)], ({"dm": 1.0},)):
        try:
            Metadata(bad)
        except Exception:
            ctx.ev(1)
            continue
        raise Violation(f"Metadata({bad!r}) accepted")


def spaces(tier):
    deep = tier == "thorough"
    return [Space("values", [dict(key=k) for k in RES], ev_values, "reserved keys"), Space("pairs", [dict(a=a, b=b) for a, b in itertools.combinations(RES, 2)], ev_pairs, "pairs of reserved keys"),
            Space("subsets", [dict(order=o, extra=e) for o in (0, 1) for e in (False, True)], ev_subsets, "all absent/blank/valued subsets"), Space("extra", [{}], ev_extra, "extra keys and keys of other types"),
            Space("copies", [dict(n=n) for n in ((1, 2, 3) if deep else (1, 2))], ev_copy, "all sequences of edits of source, metadata and dictionary"), Space("defaults", [{}], ev_default, "defaults")]
