"""C13: the caller's arrays are neither modified nor retained."""
import itertools

from .. import callops as O
from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C13"
BOUNDS = {
    "quick": "streams: all canonical label sequences of n=5 (2 features), n=4 (1, 3, 9 features), all 2^n subsets of samples overwritten after "
             "their call, 3 fill values, fresh arrays, one shared buffer (directly, strided, through read-only views) and rows of one matrix; batches: the same with rows "
             "overwritten, labels overwritten, 5 layouts, 3 types, 4 kinds of labels; every call sequence of length 2 over 18 accepted and refused "
             "calls checked for unmodified arguments; 40-sample streams through one buffer; streams and batches with up to "
             "100 features, 65 clusters, 300 samples",
    "thorough": "as quick with n=6 (2 features) and n=5 (1, 3, 9 features)",
}
ASSUMPTIONS = ["arguments are NumPy arrays (integer labels for samples)"]
FILLS = [float("nan"), 0.0, 1e30]


def chunks(tier):
    t = tier == "thorough"
    out = []
    for d, n in ((2, 6), (1, 5), (3, 5), (9, 5)) if t else ((2, 5), (1, 4), (3, 4), (9, 4)):
        out += [dict(kind="stream", d=d, labels=list(l)) for l in space.rgs(n)]
        out += [dict(kind="batch", d=d, labels=list(l)) for l in space.rgs(n) if max(l)]
    out += [dict(kind="seq", index=n) for n in NAMES]
    out += [dict(kind="long", index=n) for n in NAMES]
    out += [dict(kind="wide", spec=w) for w in C.wide(dmax=100, kmax=65, nmax=300)]
    return out


def cases(c):
    if c["kind"] == "stream":
        n = len(c["labels"])
        for name in NAMES:
            for mode in ("fresh", "matrix"):
                for mask in range(1, 1 << n):
                    yield dict(index=name, kind="stream", d=c["d"], labels=c["labels"], mode=mode, mask=mask, fill=mask % 3)
            for fill in range(3):
                for mode in ("buffer", "readonly", "every other"):
                    yield dict(index=name, kind="stream", d=c["d"], labels=c["labels"], mode=mode, mask=(1 << n) - 1, fill=fill)
    elif c["kind"] == "batch":
        for name in NAMES:
            for dt in ("float64", "float32", "int64"):
                for lay in ("C", "F", "strided", "reversed", "readonly"):
                    for fill in range(3):
                        for lab in ("int64", "int32", "list", "odd"):
                            yield dict(index=name, kind="batch", d=c["d"], labels=c["labels"], dtype=dt, layout=lay, fill=fill,
                                       lab=lab)
    elif c["kind"] == "seq":
        for ops in itertools.product(O.OPS, repeat=2):
            yield dict(index=c["index"], kind="seq", ops=list(ops))
    elif c["kind"] == "wide":
        w = c["spec"]
        labels = list(C.wide_labels(w["K"], w["n"], w["pat"]))
        n = len(labels)
        for name in NAMES:
            yield dict(index=name, kind="stream", d=w["d"], labels=labels, mode="buffer", mask=(1 << n) - 1, fill=0)
            yield dict(index=name, kind="stream", d=w["d"], labels=labels, mode="matrix", mask=(1 << n) - 1, fill=2)
            yield dict(index=name, kind="stream", d=w["d"], labels=labels, mode="readonly", mask=(1 << n) - 1, fill=1)
            for lay in ("C", "F", "readonly"):
                for lab in ("int64", "odd"):
                    yield dict(index=name, kind="batch", d=w["d"], labels=labels, dtype="float64", layout=lay, fill=1, lab=lab)
    else:
        for d in (1, 2, 6):
            for k in (1, 2, 5):
                for fill in range(3):
                    yield dict(index=c["index"], kind="stream", d=d, labels=[(i * i + i // 3) % k for i in range(40)],
                               mode="buffer", mask=(1 << 40) - 1, fill=fill)


_memo = {}


def expected(name, d, labels):
    """The values of a stream whose arrays are never touched, and of the batch."""
    key = name, d, tuple(labels)
    if key not in _memo:
        if len(_memo) > 300:
            _memo.clear()
        X = data(d, len(labels))
        keep = [X[i].copy() for i in range(len(labels))]
        o = C.new(name)
        vals = [C.scalar(o.get_cvi(keep[i], labels[i])) for i in range(len(labels))]
        _memo[key] = vals
    return _memo[key]


def data(d, n):
    return C.array(space.generic(d, n, 1) if n <= 12 else space.cloud(d, n, 1))


def check(case, rec):
    return {"stream": stream, "batch": batch, "seq": seq}[case["kind"]](case, rec)


def stream(case, rec):
    name, d, labels = case["index"], case["d"], case["labels"]
    n = len(labels)
    X = data(d, n)
    want = expected(name, d, labels)
    fill = FILLS[case["fill"]]
    o = C.new(name)
    buf, wide = np.zeros(d), np.zeros(2 * d)
    M = X.copy()
    for i in range(n):
        own = None
        if case["mode"] in ("buffer", "readonly", "every other"):
            if case["mode"] == "every other":
                own = wide[1::2]
            else:
                own = buf
            own[:] = X[i]
            a = own
            if case["mode"] == "readonly":     # the callee gets a read-only view of a buffer the caller goes on writing to
                a = buf[:]
                a.flags.writeable = False
        elif case["mode"] == "matrix":
            a = M[i]
        else:
            a = X[i].copy()
        orig = a.tobytes()
        v = C.scalar(o.get_cvi(a, labels[i]))
        rec.transitions += 1
        rec.checked += 2
        if a.tobytes() != orig:
            return "%s modified sample %d of a stream" % (name, i + 1)
        shown = C.scalar(o.criterion_value)
        if case["mask"] >> i & 1:
            (a if own is None else own)[:] = fill
        if not C.same(C.scalar(o.criterion_value), shown):
            return "%s: overwriting sample %d changed the reported value" % (name, i + 1)
        if not C.same(v, want[i]):
            return "%s: value %d is %r; with arrays that are not overwritten after their call (%s, overwritten: %s) %r" % (
                name, i + 1, v, case["mode"], bin(case["mask"]), want[i])
    rec.traces += 1
    rec.state(hash((d, tuple(labels), case["mode"], case["mask"])))
    return None


def batch(case, rec):
    name, d, labels = case["index"], case["d"], case["labels"]
    n = len(labels)
    X = data(d, n).astype(case["dtype"])
    lay = case["layout"]
    if lay in ("C", "readonly"):
        base = a = X.copy()
        if lay == "readonly":
            a = base[:]
            a.flags.writeable = False
    elif lay == "F":
        base = a = np.asfortranarray(X)
    elif lay == "strided":
        base = np.zeros((2 * n, 2 * d), dtype=X.dtype)
        a = base[::2, ::2]
        a[:] = X
    else:
        base = X[::-1].copy()
        a = base[::-1]
    if case["lab"] == "odd":             # labels that are not 0, 1, 2, ... in order of appearance
        lab = np.array([(5, -2, 9, 0, 3, 70)[l % 6] + 100 * (l // 6) for l in labels])
    else:
        lab = list(labels) if case["lab"] == "list" else np.array(labels, dtype=case["lab"])
    ob, ol = base.tobytes(), list(lab)
    o = C.new(name)
    v = C.scalar(o.get_cvi(a, lab))
    rec.transitions += 1
    rec.traces += 1
    rec.checked += 3
    if base.tobytes() != ob:
        return "%s modified its batch data (%s, %s)" % (name, case["dtype"], lay)
    if list(lab) != ol:
        return "%s modified its batch labels" % name
    fill = FILLS[case["fill"]]
    (base if lay == "readonly" else a)[:] = fill if case["dtype"] != "int64" else 77
    for i in range(n):
        lab[i] = 7
    if not C.same(C.scalar(o.criterion_value), v):
        return "%s: overwriting the batch arrays changed the reported value from %r to %r" % (name, v, o.criterion_value)
    rec.state(hash((d, tuple(labels), case["dtype"], lay)))
    return None


def seq(case, rec):
    name = case["index"]
    o = C.new(name)
    for i, op in enumerate(case["ops"]):
        x, l = O.arguments(op, as_list=i == 1)
        ox, ol = x.tobytes(), np.array(l).tobytes()
        sh, dt, fl = x.shape, x.dtype, x.flags.writeable
        try:
            o.get_cvi(x, l)
        except ValueError:
            pass
        except Exception as e:
            if isinstance(e, C.Interrupted):
                raise
        rec.transitions += 1
        rec.checked += 1
        if x.tobytes() != ox or x.shape != sh or x.dtype != dt or x.flags.writeable != fl:
            return "%s: call %r of %r modified the data passed to it" % (name, op, case["ops"])
        if np.array(l).tobytes() != ol:
            return "%s: call %r of %r modified the labels passed to it" % (name, op, case["ops"])
    rec.state(hash(tuple(case["ops"])))
    rec.traces += 1
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
