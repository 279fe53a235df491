"""C06: the order of the samples does not matter."""
import itertools

from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C06"
BOUNDS = {
    "quick": "all permutations of every set partition into >= 2 clusters: n=5 over generic points in 1,2,3 features and over "
             "2 grids with repeated points, n=4 in 8 features, n=6 for 5 partitions in 2 features, both modes; all orders of "
             "4 blocks and all cuts/rotations of 24..60-sample sets with up to 12 clusters; 5 orders of streams with up to 100 (and 257) features, 65 (and 260) clusters, 530 samples",
    "thorough": "as quick, plus all permutations of n=6 for every partition (2 features, generic and with repetitions)",
}
ASSUMPTIONS = ["inputs are integers; values outside the alphabet are not explored"]
POINTS = {
    "g1": space.generic(1, 6, 0), "g2": space.generic(2, 6, 0), "g3": space.generic(3, 6, 0), "g8": space.generic(8, 6, 0),
    "r1": ((0,), (1,), (0,), (-3,), (1,), (2,)),
    "r2": ((1, 0), (0, 2), (1, 0), (-3, 1), (0, 2), (1, 0)),
}


def chunks(tier):
    out = []
    for key in ("g1", "g2", "g3", "r1", "r2"):
        out += [dict(kind="perm", pts=key, labels=list(l)) for l in space.rgs(5) if max(l) > 0]
    out += [dict(kind="perm", pts="g8", labels=list(l)) for l in space.rgs(4) if max(l) > 0]
    six = [l for l in space.rgs(6) if max(l) > 0]
    pick = six if tier == "thorough" else [(0, 0, 0, 1, 1, 1), (0, 1, 2, 0, 1, 2), (0, 0, 1, 1, 2, 3), (0, 1, 1, 1, 1, 1),
                                           (0, 1, 2, 3, 4, 4)]
    for key in ("g2", "r2") if tier == "thorough" else ("g2",):
        out += [dict(kind="perm", pts=key, labels=list(l), first=f) for l in pick for f in range(6)]
    for n in NAMES:
        for d, sizes in ((2, (6, 6, 6, 6)), (1, (1, 15, 4, 9)), (3, (20, 2, 2, 30)), (2, (3,) * 12), (2, (40, 1, 1, 1))):
            out.append(dict(kind="blocks", index=n, d=d, sizes=list(sizes)))
    out += [dict(kind="wide", spec=w) for w in C.wide(dmax=100, kmax=65, nmax=530, many=True)]
    return out


def cases(c):
    if c["kind"] == "perm":
        n = len(c["labels"])
        pts = POINTS[c["pts"]][:n]
        for perm in itertools.permutations(range(n)):
            if "first" in c and perm[0] != c["first"]:
                continue
            for name in NAMES:
                yield dict(index=name, points=[list(p) for p in pts], labels=c["labels"], perm=list(perm))
    elif c["kind"] == "wide":
        pts, labels = C.wide_points(c["spec"])
        n = len(labels)
        perms = [list(range(n))[::-1], [x for i in range(3) for x in range(i, n, 3)], list(range(n // 2, n)) + list(range(n // 2)),
                 sorted(range(n), key=lambda i: (-labels[i], i)), sorted(range(n), key=lambda i: (labels[i], -i))]
        for name in NAMES:
            for perm in perms[:1] if c["spec"]["K"] > 200 else perms:
                yield dict(index=name, points=[list(p) for p in pts], labels=list(labels), perm=perm)
    else:
        labels = C.size_labels(c["sizes"], "block")
        n = len(labels)
        pts = [list(p) for p in next(C.expand(C.FS(c["d"], c["sizes"], "block")[0]))[2]]
        q = n // 4
        cuts = [list(range(0, q)), list(range(q, 2 * q)), list(range(2 * q, 3 * q)), list(range(3 * q, n))]
        perms = [sum((cuts[i] for i in o), []) for o in itertools.permutations(range(4))]
        perms += [list(range(i, n)) + list(range(i)) for i in range(1, n)]
        perms.append(list(range(n))[::-1])
        for s in range(2, 12):
            perms.append([x for i in range(s) for x in range(i, n, s)])
        for perm in perms:
            yield dict(index=c["index"], points=pts, labels=list(labels), perm=perm)


_memo = {}


def expected(name, pts, labels):
    key = name, C.tup(pts), tuple(labels)
    if key not in _memo:
        if len(_memo) > 50:
            _memo.clear()
        X = C.array(pts)
        st = C.build(len(pts[0]), 0, pts, labels)
        _memo[key] = X, C.stream_values(name, X, labels)[-1], C.batch_value(name, X, labels), model.evaluate(st, name)
    return _memo[key]


def check(case, rec):
    name, pts, labels, perm = case["index"], case["points"], case["labels"], case["perm"]
    X, inc, bat, ref = expected(name, pts, labels)
    if ref is None or ref[1] == float("inf"):
        rec.undefined += 1
        return None
    lab = [labels[i] for i in perm]
    rec.state(hash((C.tup(pts), tuple(labels))))
    a = C.stream_values(name, X[perm], lab)[-1]
    b = C.batch_value(name, X[perm], lab)
    rec.transitions += len(perm) + 1
    rec.traces += 2
    rec.checked += 2
    rec.outcome(b)
    for what, v, w in (("incremental", a, inc), ("batch", b, bat)):
        if not C.near(v, w, 2 * ref[1]):
            return "%s %s of %d samples: %r in the given order, %r in the order %r" % (name, what, len(perm), w, v, perm[:20])
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
