"""C09: mode discipline - one batch, or a stream, never a mixture."""
import itertools

from .. import callops as O
from .. import common as C
from ..target import NAMES, np

ID = "C09"
BOUNDS = {
    "quick": "all call sequences of length up to 4 over 18 calls (accepted and refused) for 9 indices, against the mode automaton; "
             "every refused call at every position of streams of 1..40 samples with 1..6 clusters, and after batches of 2..60 "
             "rows, in 1..64 features; every canonical labelling of 2..5 rows under 7 label maps, 4 feature counts and 3 kinds of data accepted in "
             "both modes; 23 batch sizes from 2 to 2500 rows: one-label batches, wrong label counts, lone labels first, middle and last",
    "thorough": "as quick with sequences of length 5",
}
ASSUMPTIONS = ["samples have at least one feature; labels of a sample are integers"]


def chunks(tier):
    n = 5 if tier == "thorough" else 4
    out = [dict(kind="seq", index=name, prefix=[a, b], n=n) for name in NAMES for a in O.OPS for b in O.OPS]
    out += [dict(kind="long", index=name, d=d, k=k) for name in NAMES for d in (1, 2, 3, 8) for k in (1, 2, 3, 6)]
    out += [dict(kind="long", index=name, d=d, k=3) for name in NAMES for d in (4, 5, 7, 16, 33, 64)]
    out += [dict(kind="accept", index=name) for name in NAMES]
    out += [dict(kind="after", index=name, d=d) for name in NAMES for d in (1, 2, 3, 8)]
    out += [dict(kind="big", index=name) for name in NAMES]
    return out


BIG = (2, 3, 6, 7, 9, 12, 17, 24, 31, 33, 48, 64, 65, 100, 127, 130, 200, 257, 400, 513, 800, 1025, 2500)


def cases(c):
    if c["kind"] == "big":
        for n in BIG:
            for d in (1, 2, 9) if n < 600 else (2,):
                yield dict(index=c["index"], big=n, d=d)
        return
    if c["kind"] == "seq":
        for rest in itertools.product(O.OPS, repeat=c["n"] - 2):
            yield dict(index=c["index"], ops=c["prefix"] + list(rest))
    elif c["kind"] == "long":
        for n in (1, 2, 3, 5, 8, 13, 40) + ((300,) if c["d"] in (2, 3) else ()):
            yield dict(index=c["index"], d=c["d"], k=c["k"], n=n)
    elif c["kind"] == "accept":
        for n in (2, 3, 4, 5):
            for labels in C.space.rgs(n):
                if max(labels):
                    for m in range(len(MAPS)):
                        for d in (1, 2, 3, 8):
                            for data in ("generic", "zero", "const") if m < 3 else ("generic",):
                                yield dict(index=c["index"], accept=list(labels), map=m, d=d, data=data)
    else:
        for k in (2, 3, 6):
            for n in (k, k + 1, 60):
                yield dict(index=c["index"], d=c["d"], k=k, n=n, batch=True)


MAPS = [(0, 1, 2, 3, 4), (-1, 0, 1, 2, 3), (4, 3, 2, 1, 0), (-5, -4, -3, -2, -1), (7, 70, 700, 7000, 70000), (1, 2, 3, 4, 5),
        (2 ** 40, -2 ** 40, 0, 5, -5)]


def accept(case, rec):
    """A well-formed batch and the same samples as a stream are never refused."""
    name, d = case["index"], case["d"]
    lab = [MAPS[case["map"]][l] for l in case["accept"]]
    n = len(lab)
    X = C.array(C.space.generic(d, n, 1)) if case["data"] == "generic" else np.zeros((n, d)) if case["data"] == "zero" else \
        np.full((n, d), 5.0)
    for how, l in (("array", np.array(lab)), ("list", lab)):
        got = call(C.new(name), X.copy(), l)
        rec.transitions += 1
        rec.checked += 1
        if got != "ok":
            return "%s refuses a batch of %d rows, %d features (%s data) with labels %r (%s) with %s" % (
                name, n, d, case["data"], lab, how, got)
    o = C.new(name)
    for i in range(n):
        got = call(o, X[i].copy(), lab[i])
        rec.transitions += 1
        rec.checked += 1
        if got != "ok":
            return "%s refuses sample %d of a stream of %d features (%s data) with labels %r with %s" % (
                name, i + 1, d, case["data"], lab, got)
    rec.traces += 3
    rec.state(hash((name, tuple(lab), d, case["data"])))
    return None


def big(case, rec):
    """Malformed batches of every size are refused by a fresh and by a used object; well-formed ones are taken by a fresh one,
    wherever the only different label stands."""
    name, n, d = case["index"], case["big"], case["d"]
    X = C.array(C.space.cloud(d, n + 1, 3))
    ones = [np.full(n, l) for l in (0, 1, -4)] + [[3] * n]
    half = np.arange(2 * n) % 2
    many = np.arange(2 * n)
    bad = [("one-label batch", X[:n], l) for l in ones]
    for m in {n - 1, n + 1, n // 2, 2 * n}:
        if m > 1:
            bad += [("batch with %d labels" % m, X[:n], l[:m]) for l in (half, many)]
    bad.append(("3-d data", X[:n].reshape(n, 1, d), half[:n]))
    bad.append(("3-d data", X[:n].reshape(1, n, d), half[:1]))
    last = [l.copy() for l in (np.zeros(n, dtype=int),) * 3]
    for l, at in zip(last, (0, n // 2, n - 1)):
        l[at] = 1
    good = last + [half[:n], many[:n]] if n < 300 else last
    o, used = C.new(name), C.new(name)
    used.get_cvi(X[n].copy(), 0)
    for what, x, l in bad:
        for who, q in (("fresh", o), ("used", used)):
            got = call(q, x.copy(), l)
            rec.transitions += 1
            rec.checked += 1
            if got != "ValueError":
                return "%s: a %s object given a %s of %d rows, %d features gives %s instead of ValueError" % (name, who, what, n, d, got)
    for l in good:
        fresh = C.new(name)
        for who, q, want in (("fresh", fresh, "ok"), ("used", fresh, "ValueError"), ("used", used, "ValueError")):
            got = call(q, X[:n].copy(), l)
            rec.transitions += 1
            rec.checked += 1
            if got != want:
                return "%s: a %s object given a batch of %d rows, %d features with %d clusters (sizes %r...) gives %s instead of %s" % (
                    name, who, n, d, len(set(l.tolist())), np.bincount(l)[:3].tolist(), got, want)
    got = call(o, X[:n].copy(), good[0])
    if got != "ok":
        return "%s refuses a batch of %d rows after refused batches with %s" % (name, n, got)
    rec.traces += 2 + len(good)
    rec.state(hash((name, n, d)))
    return None


def call(o, x, label):
    """'ok', 'ValueError', or the name of another exception."""
    try:
        o.get_cvi(x, label)
        return "ok"
    except ValueError:
        return "ValueError"
    except Exception as e:
        return type(e).__name__


def refused(d):
    """Calls that no used object of d features may accept."""
    yield "0-d data", np.array(1.0), 0
    yield "3-d data", np.ones((2, d, 2)), np.array([0, 1])
    yield "3-d data", np.ones((1, 1, d)), 0
    yield "4-d data", np.ones((1, 2, d, 1)), np.array([0, 1])
    for f in (d + 1, d + 7, 2 * d) + ((d - 1,) if d > 1 else ()) + ((1,) if d > 1 else ()):
        for l in (0, 77):
            yield "sample with %d features instead of %d" % (f, d), np.arange(1.0, f + 1), l
    for rows in (2, 5):
        b = np.arange(1.0, rows * d + 1).reshape(rows, d) ** 1.5
        yield "batch on a used object", b, np.arange(rows) % 2
        yield "batch on a used object", b, np.arange(rows) % 2 + 50
        yield "one-label batch", b, np.zeros(rows, dtype=int)
        yield "batch with too few labels", b, np.arange(rows - 1)
    yield "batch with other features", np.arange(1.0, 3 * (d + 1) + 1).reshape(3, d + 1) ** 1.5, np.array([0, 1, 1])


def check(case, rec):
    name = case["index"]
    if "big" in case:
        return big(case, rec)
    if "accept" in case:
        return accept(case, rec)
    if "ops" in case:
        o, st = C.new(name), O.FRESH
        for i, op in enumerate(case["ops"]):
            nxt = O.accepts(st, op)
            got = call(o, *O.arguments(op, as_list=i % 2 == 1))
            rec.transitions += 1
            want = "ValueError" if nxt is None else "ok"
            if got != want:
                return "%s after %r: call %r in mode %s should give %s, gave %s" % (name, case["ops"][:i], op, st, want, got)
            if nxt is not None:
                st = nxt
            rec.state(hash((st, tuple(case["ops"][:i + 1]))))
            rec.outcome(want)
        rec.checked += len(case["ops"])
        rec.traces += 1
        return None
    d, k, n = case["d"], case["k"], case["n"]
    X = C.array(C.space.cloud(d, n + 2, 7))
    lab = [i % k for i in range(n + 2)]
    if case.get("batch"):
        o = C.new(name)
        steps = [(X[:n], np.array(lab[:n]))]
        bad = list(refused(d)) + [("a sample after a batch", X[0], 0), ("a sample after a batch", X[1], 99)]
    else:
        o = C.new(name)
        steps = [(X[i], lab[i]) for i in range(n)]
        bad = list(refused(d))
    for i, (x, l) in enumerate(steps):
        got = call(o, x, l)
        rec.transitions += 1
        if got != "ok":
            return "%s refuses accepted call %d of %d (%d features) with %s" % (name, i + 1, len(steps), d, got)
        if i in (0, len(steps) - 1):
            for what, bx, bl in bad:
                got = call(o, bx, bl)
                rec.transitions += 1
                rec.checked += 1
                if got != "ValueError":
                    return "%s after %d accepted calls (%d features, %s): %s gives %s instead of ValueError" % (
                        name, i + 1, d, "batch" if case.get("batch") else "stream", what, got)
        rec.checked += 1
    if not case.get("batch"):
        got = call(o, X[n], lab[n])
        if got != "ok":
            return "%s refuses a well-formed sample after refused calls with %s" % (name, got)
    rec.traces += 1
    rec.state(hash((name, d, k, n, bool(case.get("batch")))))
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
