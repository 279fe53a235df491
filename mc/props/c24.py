"""C24: legacy objects are self-contained and reproducible."""
import copy
import itertools
import multiprocessing as mp
import pickle

from .. import common as C
from .. import space
from ..target import np

from cvi import compat                     # noqa: E402

ID = "C24"
LEGACY = ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"]
BOUNDS = {
    "quick": "all canonical cluster-number words of n=6 (2 features), n=5 (1,3 features), all streams over a 2-point 2d grid of n=5, up to 40 clusters, "
             "33 features, 300 samples: value, output attribute, bitwise repetition on a new object, deep copy and pickle at every position "
             "(short words); every refused number (+1..+3) at every position of words of n<=5; all interleavings of two objects (49 "
             "ordered pairs, 3 role pairs, constructions included) and one object after the other; pairs of streams of up to 100 samples alternating and with the second "
             "one inside the first at every tenth position",
    "thorough": "as quick with words one longer and 7 role pairs",
}
ASSUMPTIONS = ["the numerical values of the legacy indices are not judged against a definition",
               "each update gets its own array, which the caller leaves alone"]
P = space.generic(2, 12, 0)
Q = space.generic(2, 12, 4)
T = space.generic(3, 12, 2)
ROLES = {
    "A": list(zip(P, (0, 1, 0, 1))), "B": list(zip(Q, (0, 1, 0, 1))), "C": list(zip(Q, (0, 0, 1, 0))), "T": list(zip(T, (0, 1, 2, 0))),
    "S": [(P[0], 0), (P[1], 3), (P[2], 1), (P[3], 0)],
}
U, V = space.cloud(2, 120, 1), space.cloud(3, 120, 2)
ROLES["L"] = list(zip(U, [i if i < 2 else (0 if i % 4 else 1) for i in range(90)]))
ROLES["M"] = list(zip(V, [i if i < 12 else (i * 5 + i // 9) % 12 for i in range(100)]))
LONG = [("L", "L"), ("L", "M"), ("A", "L"), ("M", "B")]
PAIRS = [("A", "B"), ("C", "A"), ("S", "T"), ("T", "B"), ("B", "S"), ("C", "C"), ("A", "A")]


def make(name):
    return compat.iCVI(name)


def step(o, p, l):
    """One update: its value as a float, or 'refused'."""
    try:
        return C.scalar(o.update(np.array(p, dtype=float), l))
    except ValueError:
        return "refused"


def solo(job):
    name, role = job
    o = make(name)
    return [step(o, p, l) for p, l in ROLES[role]]


def chunks(tier):
    t = tier == "thorough"
    base = C.E1(2, 7 if t else 6, 0) + C.E1(1, 6 if t else 5, 0) + C.E1(3, 6 if t else 5, 0) + C.E2("2d2", 6 if t else 5)
    base += C.wide(dmax=33, kmax=40, nmax=300)
    out = [dict(kind="stream", base=c) for c in base]
    out += [dict(kind="refuse", index=n, n=m) for n in LEGACY for m in range(1, 6)]
    jobs = [(n, r) for n in LEGACY for r in ROLES]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        alone = dict(zip(jobs, pool.map(solo, jobs, chunksize=1)))
    for a in LEGACY:
        for b in LEGACY:
            for ra, rb in PAIRS if t else PAIRS[:3]:
                out.append(dict(kind="pair", names=[a, b], roles=[ra, rb], alone=[alone[a, ra], alone[b, rb]]))
            for ra, rb in LONG:
                out.append(dict(kind="long", names=[a, b], roles=[ra, rb], alone=[alone[a, ra], alone[b, rb]]))
    return out


def cases(c):
    if c["kind"] == "stream":
        for d, e, pts, labels, m0 in C.expand(c["base"]):
            for name in LEGACY:
                yield dict(C.describe(name, d, e, pts, labels), kind="stream")
    elif c["kind"] == "refuse":
        for labels in space.rgs(c["n"]):
            for at in range(len(labels) + 1):
                for skip in (1, 2, 3):
                    yield dict(kind="refuse", index=c["index"], labels=list(labels), at=at, skip=skip)
    elif c["kind"] == "long":                     # strictly alternating, and one stretch of the second inside the first at every tenth
        n = [1 + len(ROLES[r]) for r in c["roles"]]
        alt = [i % 2 for i in range(2 * min(n))]
        alt += [0] * (n[0] - min(n)) + [1] * (n[1] - min(n))
        yield dict(c, schedule=alt)
        for at in range(0, n[0] + 1, 10):
            yield dict(c, schedule=[0] * at + [1] * n[1] + [0] * (n[0] - at))
    else:
        n = [1 + len(ROLES[r]) for r in c["roles"]]
        for ones in itertools.combinations(range(sum(n)), n[1]):
            yield dict(c, schedule=[1 if i in ones else 0 for i in range(sum(n))])
        yield dict(c, after=True)


def number(v):
    if isinstance(v, (bool, complex, str)):
        return False
    return isinstance(v, (int, float, np.integer, np.floating)) or (isinstance(v, np.ndarray) and v.ndim == 0)


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return C.same(a, b)


def check(case, rec):
    return {"stream": stream, "refuse": refuse, "pair": pair, "long": pair}[case["kind"]](case, rec)


def stream(case, rec):
    name, pts, labels = case["index"], case["points"], case["labels"]
    n = len(labels)
    runs = []
    copies = []
    for rep in (0, 1):
        o = make(name)
        if not number(o.output) or C.scalar(o.output) != 0:
            return "%s: a new object shows the output %r" % (name, o.output)
        vals = []
        for i, (p, l) in enumerate(zip(pts, labels)):
            v = o.update(np.array(p, dtype=float), l)
            if not number(v):
                return "%s: update %d returned %r instead of one number" % (name, i + 1, v)
            if not number(o.output) or not equal(C.scalar(v), C.scalar(o.output)):
                return "%s: update %d returned %r but output shows %r" % (name, i + 1, v, o.output)
            vals.append(C.scalar(v))
            if rep == 0 and (n <= 8 or i == n // 2):
                copies.append((i + 1, copy.deepcopy(o)))
                copies.append((i + 1, pickle.loads(pickle.dumps(o))))
        runs.append(vals)
        rec.transitions += n
        rec.traces += 1
        rec.checked += 2 * n
    for i in range(n):
        if not (runs[0][i] == runs[1][i] or (runs[0][i] != runs[0][i] and runs[1][i] != runs[1][i])):
            return "%s: repeating the same %d updates on a new object gives %r instead of %r" % (name, i + 1, runs[1][i], runs[0][i])
    for at, o in copies:
        for i in range(at, n):
            v = step(o, pts[i], labels[i])
            rec.transitions += 1
            rec.checked += 1
            if not equal(v, runs[0][i]):
                return "%s: a copy made after %d updates gives %r for update %d, never copied %r" % (name, at, v, i + 1, runs[0][i])
    rec.state(hash((name, C.tup(pts), tuple(labels))))
    return None


def refuse(case, rec):
    name, labels, at = case["index"], case["labels"], case["at"]
    want = [step(o, p, l) for o in (make(name),) for p, l in zip(P, labels)]
    o = make(name)
    for i in range(len(labels) + 1):
        if i == at:
            bad = len(set(labels[:i])) + case["skip"]
            shown = C.scalar(o.output)
            if step(o, Q[0], bad) != "refused":
                return None                       # whether it is refused is decided by C20
            rec.transitions += 1
            rec.checked += 1
            if not equal(C.scalar(o.output), shown):
                return "%s: a refused update changed the output" % name
        if i < len(labels):
            v = step(o, P[i], labels[i])
            rec.transitions += 1
            rec.checked += 1
            if not equal(v, want[i]):
                return "%s: with a refused update before update %d, update %d gives %r, without %r" % (name, at + 1, i + 1, v, want[i])
    rec.traces += 1
    rec.state(hash((name, tuple(labels), at, case["skip"])))
    return None


def pair(case, rec):
    names, roles = case["names"], case["roles"]
    objs, pos = [None, None], [0, 0]
    sched = case.get("schedule") or [i for i in (0, 1) for _ in range(1 + len(ROLES[roles[i]]))]
    for i in sched:
        rec.transitions += 1
        if objs[i] is None:
            if case.get("after") and i == 1:
                objs[0] = None
            objs[i] = make(names[i])
            continue
        v = step(objs[i], *ROLES[roles[i]][pos[i]])
        want = case["alone"][i][pos[i]]
        pos[i] += 1
        rec.checked += 1
        if not equal(v, want):
            return "%s (%s) used next to %s (%s): update %d gives %r, alone %r; schedule %r" % (
                names[i], roles[i], names[1 - i], roles[1 - i], pos[i], v, want, sched)
    rec.traces += 1
    rec.state(hash((tuple(names), tuple(roles), tuple(sched))))
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
