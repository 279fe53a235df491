"""C10: a rejected call leaves no trace."""
import itertools

from .. import callops as O
from .. import common as C
from ..target import NAMES, np
from .c09 import refused

ID = "C10"
BOUNDS = {
    "quick": "all call sequences of length up to 4 over 18 calls for 9 indices: each outcome compared with the outcome of the same "
             "call after the accepted calls only; each of 20 refused calls at every position (and every pair of positions) of "
             "10-sample streams with 3 clusters, 1..3 features, and 2..5 times in a row on a fresh object and after a batch; up to 9 "
             "refused calls in 60-sample streams with 8 clusters in 1..33 features; refused batches of 8 to 1030 rows",
    "thorough": "as quick with sequences of length 5 and streams of 16 samples",
}
ASSUMPTIONS = ["only calls refused with ValueError are considered"]


def chunks(tier):
    t = tier == "thorough"
    out = [dict(kind="seq", index=name, prefix=[a, b], n=5 if t else 4) for name in NAMES for a in O.OPS for b in O.OPS]
    out += [dict(kind="insert", index=name, d=d, n=16 if t else 10) for name in NAMES for d in (1, 2, 3)]
    out += [dict(kind="far", index=name, d=d) for name in NAMES for d in (1, 2, 4, 8, 17, 33)]
    out += [dict(kind="big", index=name) for name in NAMES]
    return out


BIG = (8, 17, 33, 70, 130, 260, 520, 1030)


def cases(c):
    if c["kind"] == "big":
        for n in BIG:
            for d in (1, 2, 9):
                yield dict(index=c["index"], big=n, d=d)
        return
    if c["kind"] == "seq":
        for rest in itertools.product(O.OPS, repeat=c["n"] - 2):
            yield dict(index=c["index"], ops=c["prefix"] + list(rest))
    elif c["kind"] == "far":
        d = c["d"]
        for b in range(len(bad_calls(d))):
            for at in ([1], [30], [59], [0, 3, 20, 40], list(range(0, 60, 7))):
                yield dict(index=c["index"], d=d, n=60, bad=b, word=3, at=at)
    else:
        n, d = c["n"], c["d"]
        nb = len(bad_calls(d))
        for b in range(nb):
            for w in range(3):
                for i in range(n):
                    yield dict(index=c["index"], d=d, n=n, bad=b, word=w, at=[i])
                for i, j in itertools.combinations(range(1, n), 2):
                    if w == 0 and (i + j + b) % 3 == 0:
                        yield dict(index=c["index"], d=d, n=n, bad=b, word=w, at=[i, j])
                for m in (2, 5):
                    yield dict(index=c["index"], d=d, n=n, bad=b, word=w, at=[0] * m)
                    yield dict(index=c["index"], d=d, n=n, bad=b, word=w, at=[n // 2] * m)
            yield dict(index=c["index"], d=d, n=n, bad=b, batch=True)


def big(case, rec):
    """Large refused batches before a stream, inside it, and before a batch."""
    name, n, d = case["index"], case["big"], case["d"]
    X = C.array(C.space.cloud(d, n, 3))
    half = np.arange(n + 1) % 2
    bad = [(X, np.zeros(n, dtype=int)), (X, half[:n - 1]), (X, half), (X.reshape(n, 1, d), half[:n])]
    S, lab = C.array(C.space.cloud(d, 9, 5)), [0, 1, 0, 2, 1, 2, 0, 1, 2]
    plain = C.new(name)
    want = [outcome(plain, S[i].copy(), lab[i]) for i in range(9)]
    for b, (x, l) in enumerate(bad):
        for at in (0, 1, 5):
            o = C.new(name)
            for i in range(9):
                if i == at:
                    shown = C.scalar(o.criterion_value)
                    got = outcome(o, x.copy(), l)
                    rec.transitions += 1
                    if got[0] == "refused" and not C.same(C.scalar(o.criterion_value), shown):
                        return "%s: a refused batch of %d rows changes the reported value" % (name, n)
                    if got[0] != "refused":
                        break
                got = outcome(o, S[i].copy(), lab[i])
                rec.transitions += 1
                rec.checked += 1
                if got[0] != want[i][0] or got[0] == "value" and not C.same(got[1], want[i][1]):
                    return "%s: with a refused batch of %d rows (%d features) before sample %d, sample %d gives %r; without %r" % (
                        name, n, d, at + 1, i + 1, got, want[i])
        o = C.new(name)
        if outcome(o, x.copy(), l)[0] == "refused":
            got, w = outcome(o, S.copy(), np.array(lab)), outcome(C.new(name), S.copy(), np.array(lab))
            rec.transitions += 2
            rec.checked += 1
            if got[0] != w[0] or got[0] == "value" and not C.same(got[1], w[1]):
                return "%s: a batch after a refused batch of %d rows gives %r, without %r" % (name, n, got, w)
    rec.traces += 4 * len(bad)
    rec.state(hash((name, n, d)))
    return None


def bad_calls(d):
    return list(refused(d))


def outcome(o, x, label):
    try:
        return ("value", C.scalar(o.get_cvi(x, label)))
    except ValueError:
        return ("refused",)
    except Exception as e:
        return ("other", type(e).__name__)


_memo = {}


def reference(name, accepted, op):
    """Outcome of op on a fresh object that has seen the accepted calls only."""
    key = name, accepted, op
    if key not in _memo:
        if len(_memo) > 100000:
            _memo.clear()
        o = C.new(name)
        for a in accepted:
            outcome(o, *O.arguments(a))
        _memo[key] = outcome(o, *O.arguments(op))
    return _memo[key]


def equal(a, b):
    return a[0] == b[0] and (a[0] != "value" or a[1] == b[1] or (a[1] != a[1] and b[1] != b[1]) or C.same(a[1], b[1]))


def same_value(a, b):
    return a == b or (a != a and b != b)


def check(case, rec):
    name = case["index"]
    if "big" in case:
        return big(case, rec)
    if "ops" in case:
        o = C.new(name)
        acc = ()
        anybad = False
        for i, op in enumerate(case["ops"]):
            before = C.scalar(o.criterion_value)
            got = outcome(o, *O.arguments(op))
            rec.transitions += 1
            if got[0] == "other":
                return None
            if anybad:
                want = reference(name, acc, op)
                rec.checked += 1
                if not equal(got, want):
                    return "%s: after %r the call %r gives %r, without the refused calls %r" % (
                        name, case["ops"][:i], op, got, want)
            if got[0] == "refused":
                anybad = True
                rec.checked += 1
                now = C.scalar(o.criterion_value)
                if not same_value(before, now):
                    return "%s: the refused call %r after %r changed the reported value from %r to %r" % (
                        name, op, case["ops"][:i], before, now)
            else:
                acc += (op,)
            rec.state(hash((name, acc, i, anybad)))
        rec.traces += 1
        return None
    d, n = case["d"], case["n"]
    X = C.array(C.space.cloud(d, max(16, n), 3))
    what, bx, bl = bad_calls(d)[case["bad"]]
    if case.get("batch"):
        lab = np.array([(0, 1, 2)[i % 3] for i in range(n)])
        o = C.new(name)
        v = C.scalar(o.get_cvi(X[:n], lab))
        for j in range(3):
            got = outcome(o, bx, bl)
            if got[0] != "refused":
                return None
            rec.checked += 1
            rec.transitions += 1
            if not same_value(C.scalar(o.criterion_value), v):
                return "%s: after a batch, the refused call (%s) changed the reported value" % (name, what)
        return None
    lab = [(i % 3, i // 4, (i * i) % 3, (i * i + i // 9) % 8)[case["word"]] for i in range(n)]
    ref = plain(name, d, n, case["word"], X, lab)
    o = C.new(name)
    for i in range(n):
        for a in case["at"]:
            if a != i:
                continue
            before = C.scalar(o.criterion_value)
            got = outcome(o, bx, bl)
            rec.transitions += 1
            if got[0] != "refused":
                return None              # whether it may be accepted is decided by C09
            rec.checked += 1
            if not same_value(before, C.scalar(o.criterion_value)):
                return "%s: refused call (%s) before sample %d changed the reported value from %r to %r" % (
                    name, what, i + 1, before, o.criterion_value)
        got = outcome(o, X[i].copy(), lab[i])
        rec.transitions += 1
        rec.checked += 1
        if not equal(got, ref[i]):
            return "%s: with refused calls (%s, labels %r) before samples %r, sample %d gives %r; without %r" % (
                name, what, bl, [a + 1 for a in case["at"]], i + 1, got, ref[i])
    rec.traces += 1
    rec.state(hash((name, d, n, case["bad"], case["word"], tuple(case["at"]))))
    return None


def plain(name, d, n, word, X, lab):
    key = name, d, n, word
    if key not in _memo:
        o = C.new(name)
        _memo[key] = [outcome(o, X[i].copy(), lab[i]) for i in range(n)]
    return _memo[key]


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
