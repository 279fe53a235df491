"""C14: numeric type and memory layout of the inputs do not matter."""
import itertools

from .. import common as C
from .. import model
from ..target import NAMES, np

ID = "C14"
ITYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FTYPES = ["float16", "float32", "float64", ">f8", ">f4", "<f2", ">i4", ">i2"]
LTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", ">i4", "list", "tuple"]
LVIEWS = ["int64:" + v for v in ("strided", "reversed", "readonly", "column")]
LAYOUTS = ["C", "F", "strided", "reversed", "flipcols", "readonly", "transposed", "offset"]
SLAYOUTS = ["plain", "column", "strided", "reversed", "readonly"]
BOUNDS = {
    "quick": "batches: 14 data sets (1..40 features, 2..4 clusters) x 16 element types x 8 layouts x 15 label types and layouts; streams: 16 element "
             "types x 5 layouts x 9 label types, all assignments of 7 element types to 4 samples, all assignments of 4 label types to 5 "
             "samples; 19 sets of label values over the whole range of the 8..64-bit types (values that agree in their "
             "low bits or as doubles), in every order, in every type that holds them and every pair of such types; larger values (over the full range of every integer type up "
             "to 32 bits), 400 samples, 8 and 40 features",
    "thorough": "as quick with all assignments of 7 element types to 5 samples",
}
ASSUMPTIONS = ["the numbers are representable in every type they are passed in"]
# values up to 120: squares, sums and differences overflow 8-bit, squares and sums of squares overflow 16-bit types; data sets
# "h*" hold halves/quarters (floating types only); "b*" hold values up to 30000 (half precision and 8-bit types left out)
DATA = {
    "u1": ([[3], [100], [7], [120], [1], [60], [110]], [0, 1, 0, 1, 0, 2, 1]),
    "u2": ([[3, 90], [100, 5], [7, 80], [120, 1], [60, 60], [1, 100], [50, 70]], [0, 1, 0, 1, 2, 0, 2]),
    "u3": ([[1, 2, 120], [100, 90, 3], [4, 1, 110], [120, 100, 1], [60, 0, 60], [50, 9, 70]], [0, 1, 0, 1, 2, 2]),
    "n2": ([[-3, 90], [100, -5], [-70, 80], [120, 1], [-60, -60], [1, 100]], [0, 1, 0, 1, 2, 2]),
    "h2": ([[-0.5, 9.25], [10.75, -5], [-7, 8.5], [12, 1.25], [-6, -6.5], [1, 10]], [0, 1, 0, 1, 2, 2]),
    "v2": ([[3, 255], [200, 5], [7, 250], [255, 1], [128, 127], [1, 254], [90, 200]], [0, 1, 0, 1, 2, 0, 2]),
    "x2": ([[3, 65535], [60000, 5], [7, 65000], [65535, 1], [32768, 32767], [1, 65534], [9000, 40000]], [0, 1, 0, 1, 2, 0, 2]),
    "y2": ([[3, 2**32 - 1], [2**31 + 5, 5], [7, 2**32 - 9], [2**32 - 3, 1], [2**30 + 1, 2**24 + 1], [1, 2**31 - 1]], [0, 1, 0, 1, 2, 0]),
    "z2": ([[-2**30 - 1, 2**24 + 1], [2**30 + 5, 5], [-2**30 + 77, 2**25 + 1], [2**29 - 3, 1], [7, -2**30 + 3]], [0, 1, 0, 1, 0]),
    "m3": ([[-30001, 7, 100], [30000, -9, -3], [-29000, 77, 5], [25003, 1, -12000], [0, -32768, 9]], [0, 1, 0, 1, 1]),
    "u8": ([[(7 * i * j + 13 * i + 5 * j) % 121 for j in range(8)] for i in range(20)], [i % 4 for i in range(20)]),
    "u40": ([[(7 * i * j + 11 * i + 3 * j) % 121 for j in range(40)] for i in range(9)], [i % 3 for i in range(9)]),
    "ul": ([[(i * i + 7 * i) % 121, (11 * i + i // 7) % 119] for i in range(400)], [i if i < 3 else (i * i) % 3 for i in range(400)]),
    "b2": ([[3, 30000], [20000, 5], [7, 28000], [25000, 1], [9000, 9000], [1, 30001]], [0, 1, 0, 1, 2, 0]),
}


# label values over the whole range of each type: values that agree in their low or high bits must stay different labels
LVALS = [[0, 1, 2], [127, -128, -1], [1, 255, 254], [0, 128, 255], [1, 257, 65535], [-1, 255, -32768], [32767, -32768, -1],
         [1, 65537, 131073], [2**31 - 1, -2**31, -1], [5, 2**31 + 5, 2**32 - 1], [-1, 2**31 - 1, 2**32 - 1], [1, 2**32 + 1, 2**40 + 1],
         [2**53, 2**53 + 1, 2**53 + 2], [-2**53 - 1, -2**53, 2**53 + 1], [2**63 - 1, -2**63, -1], [2**62 + 1, 2**62, 1],
         [2**63 + 5, 5, 2**63 + 6], [2**64 - 1, 2**63 - 1, 2**31 - 1], [2**63, 2**63 + 1, 2**63 + 2]]


def holds(t, vals):
    if t in ("int", "list", "tuple"):
        return t != "list" and t != "tuple" or all(-2**63 <= v < 2**63 for v in vals)
    i = np.iinfo(np.dtype(t))
    return all(i.min <= v <= i.max for v in vals)


def types_for(key):
    if key[0] == "u":
        return ITYPES + FTYPES
    if key[0] == "n":
        return [t for t in ITYPES if t[0] != "u"] + FTYPES
    if key[0] == "v":
        return [t for t in ITYPES if t != "int8"] + FTYPES
    if key[0] == "x":
        return ["uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", ">i4", ">u2", ">f4"]
    if key[0] == "y":
        return ["uint32", "int64", "uint64", "float64", ">i8", ">u4"]
    if key[0] == "z":
        return ["int32", "int64", "float64", ">i4", ">i8"]
    if key[0] == "m":
        return ["int16", "int32", "int64", "float32", "float64", ">i2"]
    if key[0] == "h":
        return [t for t in FTYPES if "i" not in t]
    return [t for t in ITYPES if t not in ("int8", "uint8")] + ["float32", "float64", ">i2", ">f4"]


def ltypes(labels):
    return LTYPES


def names_of(key):
    """rCIP regularises with an absolute term: such large numbers are singular for it."""
    return [n for n in NAMES if not (n == "rCIP" and key[0] in "yz")]


def chunks(tier):
    out = []
    for key in DATA:
        for dt in types_for(key):
            out.append(dict(kind="batch", key=key, dtype=dt))
            out.append(dict(kind="stream", key=key, dtype=dt))
    for name in NAMES:
        for first in MIX:
            out.append(dict(kind="mix", index=name, n=5 if tier == "thorough" else 4, first=first))
        out.append(dict(kind="labels", index=name))
        out.append(dict(kind="lvals", index=name))
    return out


MIX = ["int8", "uint8", "int16", "int64", "float16", "float32", "float64"]


def cases(c):
    if c["kind"] == "batch":
        for name in names_of(c["key"]):
            for lay in LAYOUTS:
                for lt in ("int64",) if c["key"] == "ul" and lay not in "CF" else \
                        LTYPES + LVIEWS if lay in ("C", "strided") else ("int64", "uint8", "list"):
                    yield dict(index=name, kind="batch", key=c["key"], dtype=c["dtype"], layout=lay, ltype=lt)
    elif c["kind"] == "stream":
        for name in names_of(c["key"]):
            if c["key"] in ("ul", "u8", "u40"):
                n = len(DATA[c["key"]][1])
                for lay in SLAYOUTS:
                    yield dict(index=name, kind="stream", key=c["key"], dtypes=[c["dtype"]] * n, layout=lay, ltypes=["int"] * n)
                continue
            for lay in SLAYOUTS:
                for lt in ["int"] + [t for t in LTYPES if t not in ("list", "tuple", ">i4")]:
                    yield dict(index=name, kind="stream", key=c["key"], dtypes=[c["dtype"]] * 16, layout=lay, ltypes=[lt] * 16)
    elif c["kind"] == "mix":
        for w in itertools.product(MIX, repeat=c["n"] - 1):
            w = (c["first"],) + w
            yield dict(index=c["index"], kind="stream", key="u2", dtypes=list(w), layout="plain", ltypes=["int"] * len(w))
    elif c["kind"] == "lvals":
        for vals in LVALS:
            for perm in itertools.permutations(vals):
                for t in LTYPES:
                    if holds(t, perm):
                        yield dict(index=c["index"], kind="batch", key="u2", dtype="float64", layout="C", ltype=t, lvals=list(perm))
                fit = [t for t in ["int"] + LTYPES[:8] if holds(t, perm)]
                for t in fit:
                    yield dict(index=c["index"], kind="stream", key="u2", dtypes=["float64"] * 7, layout="plain", ltypes=[t] * 7,
                               lvals=list(perm))
                for t, u in itertools.permutations(fit, 2):
                    yield dict(index=c["index"], kind="stream", key="u2", dtypes=["float64"] * 7, layout="plain",
                               ltypes=[t, t, u, u, t, u, u], lvals=list(perm))
    else:
        for w in itertools.product(["int", "int8", "uint64", "int32"], repeat=5):
            yield dict(index=c["index"], kind="stream", key="u2", dtypes=["float64"] * 5, layout="plain", ltypes=list(w))


_memo = {}


def expected(name, key):
    if (name, key) not in _memo:
        pts, labels = DATA[key]
        X = np.array(pts, dtype=float)
        inc = C.stream_values(name, X, labels)
        f = 4 if key[0] == "h" else 1
        st = model.State(len(pts[0]), -2 if f == 4 else 0)
        refs = []
        for p, l in zip(pts, labels):
            st.add([int(x * f) for x in p], l)
            refs.append(model.evaluate(st, name) if st.k > 1 else (0.0, 0.0))
        _memo[name, key] = inc, C.batch_value(name, X, labels), refs
    return _memo[name, key]


def layout2(X, lay):
    n, d = X.shape
    if lay == "C":
        return np.ascontiguousarray(X)
    if lay == "F":
        return np.asfortranarray(X)
    if lay == "strided":
        b = np.zeros((2 * n, 3 * d), dtype=X.dtype)
        b[::2, ::3] = X
        return b[::2, ::3]
    if lay == "reversed":
        return np.ascontiguousarray(X[::-1])[::-1]
    if lay == "flipcols":
        return np.ascontiguousarray(X[:, ::-1])[:, ::-1]
    if lay == "transposed":
        return np.ascontiguousarray(X.T).T
    if lay == "offset":
        b = np.zeros((n + 1, d + 1), dtype=X.dtype)
        b[1:, 1:] = X
        return b[1:, 1:]
    a = np.array(X)
    a.flags.writeable = False
    return a


def layout1(x, lay):
    if lay == "plain" and x.dtype == np.float64:
        return x.copy()
    if lay == "column":
        b = np.zeros((len(x), 3), dtype=x.dtype)
        b[:, 1] = x
        return b[:, 1]
    if lay == "strided":
        b = np.zeros(2 * len(x), dtype=x.dtype)
        b[::2] = x
        return b[::2]
    if lay == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    a = np.array(x)
    if lay == "readonly":
        a.flags.writeable = False
    return a


def labels2(labels, t):
    if t == "list":
        return list(labels)
    if t == "tuple":
        return tuple(labels)
    t, _, view = t.partition(":")
    a = np.array(labels, dtype=t)
    return layout1(a, view) if view else a


def label1(l, t):
    return int(l) if t == "int" else np.dtype(t).type(l)


def check(case, rec):
    name, key = case["index"], case["key"]
    pts, labels = DATA[key]
    inc, bat, refs = expected(name, key)
    if "lvals" in case:
        labels = [case["lvals"][l] for l in labels]
    rec.traces += 1
    if case["kind"] == "batch":
        X = layout2(np.array(pts, dtype=float).astype(case["dtype"]), case["layout"])
        lt = case["ltype"]
        lab = labels2(labels, lt)
        v = C.scalar(C.new(name).get_cvi(X, lab))
        rec.transitions += 1
        rec.state(hash((key, case["dtype"], case["layout"], lt, tuple(labels))))
        if refs[-1] is None or refs[-1][1] == float("inf"):
            rec.undefined += 1
            return None
        rec.checked += 1
        rec.outcome(v)
        if not near(v, bat, refs[-1]):
            return "%s batch of %s data (%s layout, %s labels): %r, the same numbers as doubles %r" % (
                name, case["dtype"], case["layout"], lt, v, bat)
        return None
    o = C.new(name)
    rec.state(hash((key, tuple(case["dtypes"]), case["layout"], tuple(case["ltypes"]), tuple(labels))))
    for i in range(min(len(labels), len(case["dtypes"]))):
        x = layout1(np.array(pts[i], dtype=float).astype(case["dtypes"][i]), case["layout"])
        v = C.scalar(o.get_cvi(x, label1(labels[i], case["ltypes"][i])))
        rec.transitions += 1
        if refs[i] is None or refs[i][1] == float("inf"):
            rec.undefined += 1
            continue
        rec.checked += 1
        if not near(v, inc[i], refs[i]):
            return "%s sample %d of a stream of %s (%s layout, labels %s): %r, the same numbers as doubles %r" % (
                name, i + 1, case["dtypes"][:len(labels)], case["layout"], case["ltypes"][:len(labels)], v, inc[i])
    return None


def near(v, w, ref):
    return C.near(v, w, 2 * ref[1])


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
