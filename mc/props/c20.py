"""C20: legacy v0 indices consume every well-ordered stream and keep exact books."""
import itertools
import math

from .. import common as C
from .. import space
from ..target import np, cvi

from cvi import compat                     # noqa: E402

ID = "C20"
LEGACY = ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"]
BOUNDS = {
    "quick": "all canonical cluster-number words of n=6 (generic points in 1,2,3 features), n=7 in 2 features, all streams over 2d grids of 2 (n=5) and 3 "
             "(n=4) points and a 1d grid of 3 (n=4); every prefix: books of sizes and centres; every skip-ahead number (+1..+3) at every "
             "position, and at 3..40 clusters (+1..+10^9); samples as 16-, 32-, 64-bit integers, single precision, read-only and strided vectors; 2..65 clusters, 24 feature counts up to 100, streams up to 530 samples; all interleavings of two objects from the by-name constructor; "
             "factory names and 14 wrong names",
    "thorough": "as quick with words one longer",
}
ASSUMPTIONS = ["the numerical values of the legacy indices are not judged, only that one number is returned",
               "a refused update is judged by the lists of sizes and centres only"]


# element types in which the samples are passed; the centres of half and single precision streams may be kept in that precision
DTYPES = ["int64", "int32", "int16", "float32", "readonly", "strided"]


def vector(p, e, dtype):
    x = np.array(p, dtype=float) * 2.0 ** e
    if dtype in (None, "float64"):
        return x
    if dtype == "readonly":
        x.flags.writeable = False
        return x
    if dtype == "strided":
        b = np.zeros(2 * len(x))
        b[::2] = x
        return b[::2]
    return x.astype(dtype)


def chunks(tier):
    t = tier == "thorough"
    out = []
    for d in (1, 2, 3):
        out += C.E1(d, 7 if t else 6, 0)
    out += C.E1(2, 8 if t else 7, 3)
    out += C.E2("2d2", 6 if t else 5)
    out += C.E2("2d3", 5 if t else 4)
    out += C.E2("1d3", 5 if t else 4)
    for K in (2, 5, 20):
        out += C.FK(2, K)
    for sizes in ((100, 100), (1, 199), (50, 50, 50, 50), (66, 1, 133)):
        for order in ("block", "robin"):
            out += C.FS(2, sizes, order)
    out += C.wide(dmax=100, kmax=65, nmax=530)
    for e in (-60, 60):
        out += C.E1(2, 5, 2, e=e)
    out = [dict(kind="stream", base=c) for c in out]
    for dt in DTYPES:
        out += [dict(kind="stream", dtype=dt, base=c) for c in C.E1(2, 5, 0) + C.E1(1, 5, 1) + C.FS(2, (30, 40, 50), "robin")]
    out += [dict(kind="skip", index=n) for n in LEGACY]
    out += [dict(kind="pairs", index=n) for n in LEGACY]
    out.append(dict(kind="factory"))
    return out


def cases(c):
    if c["kind"] == "stream":
        for d, e, pts, labels, m0 in C.expand(c["base"]):
            for name in LEGACY:
                yield dict(C.describe(name, d, e, pts, labels), kind="stream", m0=m0, dtype=c.get("dtype"))
    elif c["kind"] == "skip":
        for K in range(3, 41):                       # many clusters, then one too far ahead
            for labels in (list(range(K)), list(range(K)) + [0, K // 2, K - 1]):
                for skip in (1, 2, 5, 100, 10 ** 9):
                    yield dict(kind="skip", index=c["index"], labels=labels, skip=skip, times=1)
        for n in range(0, 6):
            for labels in space.rgs(n) if n else [()]:
                for skip in (1, 2, 3):
                    for times in (1, 2):
                        yield dict(kind="skip", index=c["index"], labels=list(labels), skip=skip, times=times)
    elif c["kind"] == "pairs":
        for other in LEGACY:
            for sched in set(itertools.permutations((0, 0, 0, 0, 1, 1, 1, 1))):
                yield dict(kind="pairs", index=c["index"], other=other, schedule=list(sched))
    else:
        yield dict(kind="factory")


def make(name, how=0):
    return compat.iCVI(name) if how == 0 else getattr(compat, name)()


def number(v):
    if isinstance(v, (bool, complex, str)):
        return False
    if isinstance(v, np.ndarray):
        return v.ndim == 0
    return isinstance(v, (int, float, np.integer, np.floating))


def books(o, exact, counts, e=0, tol=1e-9):
    """Message when the public lists differ from the exact sizes and means."""
    sizes, centres = list(o.cluster_sizes), list(o.cluster_centers)
    if [int(s) for s in sizes] != counts or any(float(s) != int(s) for s in sizes):
        return "cluster sizes %r instead of %r" % (sizes, counts)
    if len(centres) != len(counts):
        return "%d cluster centres for %d clusters" % (len(centres), len(counts))
    for i, (c, s, n) in enumerate(zip(centres, exact, counts)):
        c = np.asarray(c, dtype=float).ravel() * 2.0 ** -e
        if len(c) != len(s) or not all(abs(float(a) - b / n) <= tol * (1 + abs(b / n)) * max(1, n // 20) for a, b in zip(c, s)):
            return "centre of cluster %d is %r instead of %r" % (i, c.tolist(), [b / n for b in s])
    return None


def add(exact, counts, p, l):
    if l == len(counts):
        counts.append(0)
        exact.append([0] * len(p))
    counts[l] += 1
    exact[l] = [a + b for a, b in zip(exact[l], p)]


def check(case, rec):
    return {"stream": stream, "skip": skip, "pairs": pairs, "factory": factory}[case["kind"]](case, rec)


def stream(case, rec):
    name, pts, labels = case["index"], case["points"], case["labels"]
    o = make(name, len(labels) % 2)
    exact, counts = [], []
    passed = []
    for i, (p, l) in enumerate(zip(pts, labels)):
        x = vector(p, case["e"], case.get("dtype"))
        passed.append((x, x.tobytes()))
        try:
            v = o.update(x, l)
        except Exception as e:
            if isinstance(e, C.Interrupted):
                raise
            return "%s: update %d of a well-ordered stream %s" % (name, i + 1, C.exception_text(e))
        add(exact, counts, p, l)
        rec.transitions += 1
        if not number(v):
            return "%s: update %d returned %r instead of one number" % (name, i + 1, v)
        for j, (y, keep) in enumerate(passed if i < 12 or i % 50 == 49 else passed[-1:]):
            if y.tobytes() != keep:
                return "%s: update %d modified the vector passed to update %d" % (name, i + 1, j + 1)
        if i + 1 >= case["m0"]:
            rec.checked += 1
            msg = books(o, exact, counts, case["e"], 1e-4 if case.get("dtype") == "float32" else 1e-9)
            if msg:
                return "%s after %d updates (labels %r): %s" % (name, i + 1, labels[:i + 1], msg)
            rec.state(hash((len(p), C.tup(pts[:i + 1]), tuple(labels[:i + 1]))))
    rec.traces += 1
    return None


P = space.generic(2, 12, 0)
Q = space.generic(2, 12, 4)
R = space.cloud(2, 60, 4)


def snapshot(o):
    return [int(s) for s in o.cluster_sizes], [np.array(c, dtype=float).tolist() for c in o.cluster_centers]


def skip(case, rec):
    name, labels = case["index"], case["labels"]
    o = make(name)
    exact, counts = [], []
    for p, l in zip(P if len(labels) < 9 else R, labels):
        o.update(np.array(p, dtype=float), l)
        add(exact, counts, p, l)
    before = snapshot(o)
    for t in range(case["times"]):
        try:
            o.update(np.array([3.0, 4.0]), len(counts) + case["skip"])
            return "%s accepts cluster number %d with only %d clusters" % (name, len(counts) + case["skip"], len(counts))
        except ValueError:
            pass
        except Exception as e:
            if isinstance(e, C.Interrupted):
                raise
            return "%s refuses a cluster number that skips ahead with %s instead of ValueError" % (name, type(e).__name__)
        rec.transitions += 1
        rec.checked += 1
        if snapshot(o) != before:
            return "%s: refusing a cluster number that skips ahead changed the lists of sizes and centres" % name
    for p, l in ((P[8], len(counts)), (P[9], 0), (P[10], 0)):     # the stream goes on
        o.update(np.array(p, dtype=float), l)
        add(exact, counts, p, l)
        rec.transitions += 1
        msg = books(o, exact, counts)
        if msg:
            return "%s after a refused update: %s" % (name, msg)
    rec.traces += 1
    rec.state(hash((name, tuple(labels), case["skip"], case["times"])))
    return None


def pairs(case, rec):
    names = [case["index"], case["other"]]
    objs = [make(n) for n in names]
    if objs[0] is objs[1] or type(objs[0]).__name__ != names[0] or type(objs[1]).__name__ != names[1]:
        return "the by-name constructor returned %r for %r" % ([type(o).__name__ for o in objs], names)
    ex, cn, pos = [[], []], [[], []], [0, 0]
    labs = [(0, 1, 0, 1), (0, 0, 1, 1)]
    for i in case["schedule"]:
        p, l = (P, Q)[i][pos[i]], labs[i][pos[i]]
        pos[i] += 1
        objs[i].update(np.array(p, dtype=float), l)
        add(ex[i], cn[i], p, l)
        rec.transitions += 1
        for j in (0, 1):
            rec.checked += 1
            msg = books(objs[j], ex[j], cn[j])
            if msg:
                return "%s used next to %s: %s" % (names[j], names[1 - j], msg)
    rec.traces += 1
    return None


def factory(case, rec):
    listed = [getattr(m, "__name__", m) for m in getattr(compat.v0, "MODULES", ())]
    rec.checked += 1
    if sorted(listed) != sorted(LEGACY) or any(m is not getattr(compat, m.__name__) for m in compat.v0.MODULES):
        return "the list of legacy indices is %r" % listed
    for n in LEGACY:
        a, b = compat.iCVI(n), compat.iCVI(n)
        rec.transitions += 2
        rec.checked += 1
        if a is b or type(a) is not getattr(compat, n) or list(a.cluster_sizes) or list(a.cluster_centers):
            return "iCVI(%r) does not return a new object of that index" % n
        a.update(np.array([1.0, 2.0]), 0)
        c = compat.iCVI(n)
        if list(b.cluster_sizes) or list(c.cluster_sizes):
            return "iCVI(%r) objects share their lists" % n
    for bad in ["", "CH", "iSil", "ich", "ICH", "iWB", "irCIP", "iGD", "iGD4", "iGD63", " iCH", "iCH ", "icSIL", "iCVI"]:
        try:
            compat.iCVI(bad)
        except ValueError:
            rec.transitions += 1
            rec.checked += 1
            continue
        except Exception as e:
            return "iCVI(%r) raises %s instead of ValueError" % (bad, type(e).__name__)
        return "iCVI(%r) returns an object" % bad
    rec.traces += 1
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
