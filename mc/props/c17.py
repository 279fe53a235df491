"""C17: an object can be checkpointed at any point."""
import copy
import itertools
import pickle

from .. import common as C
from .. import space
from ..target import NAMES, np

ID = "C17"
METHODS = ["deepcopy"] + ["pickle%d" % p for p in range(pickle.HIGHEST_PROTOCOL + 1)] + ["reduce2"]
BOUNDS = {
    "quick": "streams over all canonical label words of length 5 (2 features) and 4 (1, 3 features): every checkpoint position 0..n x 8 copy "
             "methods x 5 ways of continuing original and copy (in either order, interleaved, with diverging data, copy of a copy); "
             "refused calls on both after every copy; batches; 60-sample streams with 8 clusters checkpointed at every position; "
             "streams with up to 65 features, 40 clusters, 300 samples checkpointed at 6 positions; streams of 2200 samples copied after every single sample",
    "thorough": "as quick with streams of 4200 samples, words of length 6 (2 features) and 5 (1, 3 features)",
}
ASSUMPTIONS = ["copies are made with the standard copy and pickle modules, in the same process"]
PLANS = ["copy first", "original first", "alternate", "diverge", "chain"]


def chunks(tier):
    t = tier == "thorough"
    out = []
    for d, n in ((2, 6), (1, 5), (3, 5)) if t else ((2, 5), (1, 4), (3, 4)):
        out += [dict(d=d, labels=list(l)) for l in space.rgs(n)]
    out += [dict(d=d, labels=[(i * i + i // 5) % 8 for i in range(60)], long=name) for d in (1, 2) for name in NAMES]
    out += [dict(batch=name) for name in NAMES]
    out += [dict(every=name, d=1 + i % 3, k=k, n=4200 if t else 2200) for i, name in enumerate(NAMES) for k in (1, 3)]
    out += [dict(wide=w) for w in C.wide(dmax=65, kmax=40, nmax=300)]
    return out


def duplicate(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "reduce2":
        return copy.deepcopy(pickle.loads(pickle.dumps(o)))
    return pickle.loads(pickle.dumps(o, int(how[6:])))


def cases(c):
    if "batch" in c:
        for how in METHODS:
            for d in (1, 2, 3):
                for l in ([0, 1, 0, 1, 1], [3, -1, 2, 2, 3]):
                    yield dict(index=c["batch"], batch=True, d=d, labels=l, how=how)
        return
    if "every" in c:
        yield dict(index=c["every"], every=True, d=c["d"], k=c["k"], n=c["n"])
        return
    if "wide" in c:
        w = c["wide"]
        labels = list(C.wide_labels(w["K"], w["n"], w["pat"]))
        n = len(labels)
        for name in NAMES:
            for at in sorted({0, 1, 2, w["K"], n // 2, n - 1}):
                for how in ("deepcopy", "pickle2", "pickle5"):
                    yield dict(index=name, d=w["d"], labels=labels, at=at, how=how, plan=PLANS[2 + at % 2])
        return
    n = len(c["labels"])
    if "long" in c:
        for at in range(n + 1):
            yield dict(index=c["long"], d=c["d"], labels=c["labels"], at=at, how=METHODS[at % len(METHODS)], plan=PLANS[at % 5])
            yield dict(index=c["long"], d=c["d"], labels=c["labels"], at=at, how="deepcopy", plan="alternate")
        return
    for name in NAMES:
        for at in range(n + 1):
            for how in METHODS:
                for plan in PLANS if how in ("deepcopy", "pickle4") else PLANS[2:4]:
                    yield dict(index=name, d=c["d"], labels=c["labels"], at=at, how=how, plan=plan)


_memo = {}


def data(d, n, seed):
    return C.array(space.generic(d, n, seed) if n <= 12 else space.cloud(d, n, seed))


def never_copied(name, d, labels, at, diverge):
    """Values from position `at` on of an object that was never copied (with the diverging data after `at`, if asked)."""
    key = name, d, tuple(labels), at if diverge else -1
    if key not in _memo:
        if len(_memo) > 500:
            _memo.clear()
        X = data(d, len(labels), 0)
        o = C.new(name)
        out = []
        for i, l in enumerate(labels):
            x, m = other(X, labels, i) if diverge and i >= at else (X[i], l)
            out.append(C.scalar(o.get_cvi(x.copy(), m)))
        _memo[key] = out
    return _memo[key]


def other(X, labels, i):
    """The diverging continuation: other data, other clusters, a new one included."""
    return X[len(labels) - 1 - i] * 2.0 + 1.0, (labels[i] + 1) if i % 2 else 77


def every(case, rec):
    """A long stream in which every sample is processed by a copy of the object that processed the one before, and by the original."""
    name, d, n, k = case["index"], case["d"], case["n"], case["k"]
    X = data(d, n, 5)
    labels = [(i // 2) % k if i % 5 else 0 for i in range(n)]
    a, b = C.new(name), C.new(name)
    for i in range(n):
        v = C.scalar(a.get_cvi(X[i].copy(), labels[i]))
        b = duplicate(b, "pickle%d" % (i % 6) if i % 7 else "deepcopy")
        w = C.scalar(b.get_cvi(X[i].copy(), labels[i]))
        if i % 3 == 0:                             # copying must not disturb the original either
            duplicate(a, "deepcopy" if i % 2 else "pickle4")
        rec.transitions += 3
        rec.checked += 1
        if not C.same(v, w):
            return "%s: a stream copied after every sample gives %r for sample %d, one never copied %r" % (name, w, i + 1, v)
    rec.traces += 1
    rec.state(hash((name, d, k, n)))
    return None


def check(case, rec):
    if "every" in case:
        return every(case, rec)
    name, d, labels, how = case["index"], case["d"], case["labels"], case["how"]
    n = len(labels)
    X = data(d, n, 0)
    rec.traces += 1
    if case.get("batch"):
        o = C.new(name)
        v = C.scalar(o.get_cvi(X, np.array(labels)))
        c = duplicate(o, how)
        rec.transitions += 2
        rec.checked += 3
        rec.state(hash((d, tuple(labels), how)))
        if type(c) is not type(o) or not C.same(C.scalar(c.criterion_value), v):
            return "%s: the %s of an object after a batch reports %r instead of %r" % (name, how, c.criterion_value, v)
        for who, q in (("copy", c), ("original", o)):
            for x, l in ((X[0], 0), (X, np.array(labels))):
                try:
                    q.get_cvi(x, l)
                    return "%s: the %s (%s) of an object after a batch accepts a call the object itself refuses" % (name, who, how)
                except ValueError:
                    pass
        return None
    at, plan = case["at"], case["plan"]
    want = never_copied(name, d, labels, at, False)
    wantd = never_copied(name, d, labels, at, True) if plan == "diverge" else None
    o = C.new(name)
    for i in range(at):
        o.get_cvi(X[i].copy(), labels[i])
    shown = C.scalar(o.criterion_value)
    c = duplicate(o, how)
    if plan == "chain":
        c = duplicate(duplicate(c, "deepcopy"), how)
    rec.transitions += at + 1
    rec.state(hash((d, tuple(labels), at, how, plan)))
    rec.checked += 2
    if type(c) is not type(o):
        return "%s: the %s is a %s" % (name, how, type(c).__name__)
    for who, q in (("copy", c), ("original", o)):
        if not C.same(C.scalar(q.criterion_value), shown):
            return "%s: after %s at position %d the %s reports %r instead of %r" % (name, how, at, who, q.criterion_value, shown)

    if at:                                     # neither may have forgotten that it is in the middle of a stream of d features
        calls = [(np.zeros(d + 1), 0), (np.array([X[0], X[0] + 1.0]), np.array([0, 1])), (np.zeros((1, 1, d)), 0)]
        if d > 1:
            calls.append((np.zeros(1), 0))
        for who, q in (("copy", c), ("original", o)):
            for x, l in calls:
                rec.transitions += 1
                try:
                    q.get_cvi(x, l)
                    return "%s: after %s at position %d the %s accepts %s data in the middle of a stream of %d features" % (
                        name, how, at, who, x.shape, d)
                except ValueError:
                    pass
    elif n > 1 and max(labels):
        v = C.scalar(C.new(name).get_cvi(X, np.array(labels)))
        w = C.scalar(duplicate(c, how).get_cvi(X, np.array(labels)))
        rec.transitions += 2
        if not C.same(v, w):
            return "%s: a batch on the %s of a new object gives %r, on a new object %r" % (name, how, w, v)

    def step(q, who, i, div=False):
        x, l = other(X, labels, i) if div else (X[i], labels[i])
        try:
            v = C.scalar(q.get_cvi(x.copy(), l))
        except Exception as ex:
            if isinstance(ex, C.Interrupted):
                raise
            return "%s: %s after %s at position %d: sample %d %s" % (name, who, how, at, i + 1, C.exception_text(ex))
        w = (wantd if div else want)[i]
        rec.transitions += 1
        rec.checked += 1
        if not C.same(v, w):
            return "%s: %s after %s at position %d (%s): sample %d gives %r, never copied %r" % (
                name, who, how, at, plan, i + 1, v, w)
        return None
    rest = range(at, n)
    if plan == "original first":
        seq = [(o, "original", i, False) for i in rest] + [(c, "copy", i, False) for i in rest]
    elif plan in ("copy first", "chain"):
        seq = [(c, "copy", i, False) for i in rest] + [(o, "original", i, False) for i in rest]
    elif plan == "alternate":
        seq = [s for i in rest for s in ((o, "original", i, False), (c, "copy", i, False))]
    else:
        seq = [s for i in rest for s in ((c, "copy", i, True), (o, "original", i, False))]
    for s in seq:
        msg = step(*s)
        if msg:
            return msg
    if plan == "diverge" and at < n:
        for who, q, w in (("copy", c, wantd), ("original", o, want)):
            if not C.same(C.scalar(q.criterion_value), w[-1]):
                return "%s: %s after %s at position %d reports %r in the end instead of %r" % (
                    name, who, how, at, q.criterion_value, w[-1])
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
