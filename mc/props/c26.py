"""C26: legacy clusters hold exactly the points they were given."""
import itertools
import math

from .. import common as C
from .. import space
from ..target import np

from cvi.compat import v0                  # noqa: E402

ID = "C26"
BOUNDS = {
    "quick": "all sequences of up to 5 points over a 4-point unit-square grid, up to 6 over 3 points of the unit interval, up to 4 over 4 points of the 3d unit cube "
             "(box on and off, centre on and off, with and without indices), 1..40 features, 400 points; after every point: count, dimension, points, "
             "indices, centre, box, membership, distances of 6 probes and of the first and last member under the norms 1, 2, 3 and maximum; a refused point of every wrong length and "
             "every out-of-range coordinate at every position; all canonical label words of n<=7 and 2..60 clusters through the list constructor",
    "thorough": "as quick with sequences and words one longer",
}
ASSUMPTIONS = ["the argument of the membership test is complement coded, as the box is",
               "a cluster is asked for distances only when it holds a point"]
GRID = {1: ((0,), (3,), (8,)), 2: ((0, 0), (8, 2), (3, 8), (5, 5)), 3: ((0, 8, 1), (4, 4, 4), (7, 0, 8), (1, 2, 3))}
NORMS = [1, 2, 3, math.inf]
PROBES = {1: ((0,), (5,), (-3,), (20,)), 2: ((0, 0), (5, 1), (-3, 4), (20, -7), (3, 8), (8, 8)), 3: ((0, 0, 0), (5, 1, 2), (-3, 4, 9), (7, 0, 8))}


def unit(p):
    return np.array(p, dtype=float) / 8.0


def chunks(tier):
    t = tier == "thorough"
    out = []
    for d, n in ((1, 6), (2, 5), (3, 4)):
        g = len(GRID[d])
        for first in range(g):
            for radial, box, idx in itertools.product((True, False), repeat=3):
                out.append(dict(kind="grow", d=d, n=n + t, first=first, radial=radial, box=box, idx=idx))
    out += [dict(kind="big", d=d, n=n) for d, n in ((4, 40), (9, 40), (17, 40), (40, 30), (2, 400), (1, 400))]
    out += [dict(kind="refuse", d=d) for d in (1, 2, 3)]
    out += [dict(kind="list", n=n + t) for n in range(1, 8)]
    out.append(dict(kind="many"))
    return out


def cases(c):
    if c["kind"] == "grow":
        for seq in itertools.product(range(len(GRID[c["d"]])), repeat=c["n"] - 1):
            yield dict(c, points=[list(GRID[c["d"]][i]) for i in (c["first"],) + seq])
    elif c["kind"] == "big":
        for box in (True, False):
            yield dict(c, radial=True, box=box, idx=True, points=[[a % 9 for a in p] for p in space.cloud(c["d"], c["n"], 2)])
    elif c["kind"] == "refuse":
        d = c["d"]
        for n in range(1, 5):
            for seq in itertools.product(range(len(GRID[d])), repeat=n):
                for radial, box in itertools.product((True, False), repeat=2):
                    wrong = [("length", [4] * m) for m in (d - 1, d + 1, d + 2) if m > 0]
                    if box:
                        for j in range(d):
                            for v in (-1, 9, 80, -8):
                                wrong.append(("range", [4] * j + [v] + [4] * (d - j - 1)))
                    for what, q in wrong:
                        yield dict(kind="refuse", d=d, radial=radial, box=box, idx=True, points=[list(GRID[d][i]) for i in seq], wrong=q)
    elif c["kind"] == "list":
        for labels in space.rgs(c["n"]):
            for d in (1, 2):
                yield dict(kind="list", d=d, labels=list(labels))
    else:
        for big in ([40, -7], [-1, 0], [9, 9]):      # outside the unit interval without a box
            for radial, idx in itertools.product((True, False), repeat=2):
                yield dict(kind="grow", d=2, radial=radial, box=False, idx=idx, points=[big, [3, 4], big, [-100, 8]])
        for K in (2, 3, 10, 33, 60):
            for d in (1, 2, 5, 20):
                for rows in ("array", "list"):
                    yield dict(kind="list", d=d, labels=list(range(K)) + [(7 * i + i // 5) % K for i in range(2 * K)], rows=rows)


def make(case):
    if case["radial"] and not case["box"] and case["idx"]:
        return v0.Cluster()                          # the documented defaults
    return v0.Cluster(radial=case["radial"], box=case["box"])


def holds(o, case, pts, sums, ids, where):
    """Message when the cluster is not exactly the given points (integers over 8)."""
    n = len(pts)
    if o.len != n:
        return "%s: length %r instead of %d" % (where, o.len, n)
    if len(o.points) != n or any(not np.array_equal(np.asarray(p), unit(q)) for p, q in zip(o.points, pts)):
        return "%s: points %r instead of %r" % (where, [np.asarray(p).tolist() for p in o.points], [unit(q).tolist() for q in pts])
    if list(o.indicies) != ids:
        return "%s: indices %r instead of %r" % (where, o.indicies, ids)
    if not n:
        return None
    if o.dim != len(pts[0]):
        return "%s: dimension %r" % (where, o.dim)
    if case["radial"]:
        c = np.asarray(o.center, dtype=float).ravel()
        if len(c) != len(sums) or any(not abs(a - s / (8.0 * n)) <= 1e-12 * n for a, s in zip(c.tolist(), sums)):
            return "%s: centre %r instead of %r" % (where, c.tolist(), [s / (8.0 * n) for s in sums])
    if case["box"]:
        want = [min(p[j] for p in pts) / 8.0 for j in range(len(pts[0]))] + [1 - max(p[j] for p in pts) / 8.0 for j in range(len(pts[0]))]
        if np.asarray(o.bounding_box, dtype=float).tolist() != want:
            return "%s: bounding box %r instead of %r" % (where, np.asarray(o.bounding_box).tolist(), want)
    return None


def norm(v, p):
    v = [abs(a) for a in v]
    if p == math.inf:
        return max(v)
    return math.fsum(a ** p for a in v) ** (1.0 / p)


def inside(p, lo, hi):
    return all(l <= a <= h for a, l, h in zip(p, lo, hi))


def ask(o, case, pts, sums, where, rec):
    d, n = case["d"], len(pts)
    mean = [s / n for s in sums]
    probes = [(p, unit(p)) for p in PROBES.get(d) or [tuple(range(d)), (4,) * d]]
    probes += [(tuple(pts[i]), np.asarray(o.points[i])) for i in {0, n - 1}]        # members themselves
    for probe, x in probes:
        keep = x.tobytes()
        for p in NORMS:
            dist = [norm([a - b for a, b in zip(probe, q)], p) / 8.0 for q in pts]
            want = {"min_distance": min(dist), "avg_distance": math.fsum(dist) / n}
            if case["radial"]:
                want["center_distance"] = norm([a - b for a, b in zip(probe, mean)], p) / 8.0
            for what, w in want.items():
                calls = [getattr(o, what)(x, p)] + ([getattr(o, what)(x), getattr(o, what)(x, norm_ord=2)] if p == 2 else [])
                for v in calls:
                    rec.checked += 1
                    if not abs(C.scalar(v) - w) <= 1e-12 * n * (1 + w):
                        return "%s: %s of %r under norm %r is %r instead of %r" % (where, what, x.tolist(), p, v, w)
        if case["box"]:
            lo = [min(q[j] for q in pts) for j in range(d)]
            hi = [max(q[j] for q in pts) for j in range(d)]
            v = o.within_bounding_box(np.append(x, 1 - x))
            rec.checked += 1
            if bool(v) != inside(probe, lo, hi):
                return "%s: %r within the box of the points: %r" % (where, x.tolist(), v)
        if x.tobytes() != keep:
            return "%s: the probe was modified" % where
    return None


def grow(case, rec, wrong=None):
    o = make(case)
    pts, ids, passed = [], [], []
    sums = [0] * case["d"]
    last = len(case["points"]) - 1
    for i, p in enumerate(case["points"]):
        x = unit(p)
        passed.append((x, x.tobytes()))
        if case["idx"]:
            o.add_point(x, 7 * i)
            ids.append(7 * i)
        else:
            o.add_point(x)
        pts.append(p)
        sums = [a + b for a, b in zip(sums, p)]
        rec.transitions += 1
        where = "after %d points%s" % (i + 1, " (box)" if case["box"] else "")
        msg = holds(o, case, pts, sums, ids, where)
        if not msg and (i == last or i % 50 == 0) and wrong is None:
            msg = ask(o, case, pts, sums, where, rec) or holds(o, case, pts, sums, ids, where + " and distances")
        rec.checked += 5
        if msg:
            return msg
        for y, keep in passed if i < 20 or i == last else ():
            if y.tobytes() != keep:
                return "%s: a point passed earlier was modified" % where
    if wrong is not None:
        try:
            o.add_point(unit(wrong), 99)
        except Exception as e:
            if isinstance(e, C.Interrupted):
                raise
        else:
            return "the point %r was accepted after %d points of %d features" % (unit(wrong).tolist(), len(pts), case["d"])
        where = "after %d points and the refused point %r" % (len(pts), unit(wrong).tolist())
        msg = holds(o, case, pts, sums, ids, where) or ask(o, case, pts, sums, where, rec)
        if msg:
            return msg
        o.add_point(unit(pts[0]), 100)
        pts.append(pts[0])
        ids.append(100)
        sums = [a + b for a, b in zip(sums, pts[0])]
        rec.transitions += 2
        msg = holds(o, case, pts, sums, ids, where + " and one more")
        if msg:
            return msg
    rec.traces += 1
    rec.state(hash((C.tup(case["points"]), case["box"], case["radial"], case["idx"])))
    return None


def listed(case, rec):
    labels, d = case["labels"], case["d"]
    pts = [[a % 9 for a in p] for p in space.cloud(d, len(labels), 3)]
    X = np.array(pts, dtype=float) / 8.0
    keep = X.tobytes()
    o = v0.Clusters()
    if case.get("rows") == "list":
        o.from_list([unit(p) for p in pts], list(labels))
    else:
        o.from_list(X, np.array(labels))
    rec.transitions += len(labels)
    rec.traces += 1
    rec.state(hash((d, tuple(labels))))
    if X.tobytes() != keep:
        return "the rows were modified"
    K = max(labels) + 1
    if len(o) != K:
        return "%d clusters instead of %d" % (len(o), K)
    for l in range(K):
        mine = [i for i in range(len(labels)) if labels[i] == l]
        rows = [pts[i] for i in mine]
        if not isinstance(o[l], v0.Cluster):
            return "cluster %d of %r is %r" % (l, labels, o[l])
        msg = holds(o[l], dict(radial=True, box=False), rows, [sum(c) for c in zip(*rows)], mine, "cluster %d of %r" % (l, labels))
        rec.checked += 5
        if msg:
            return msg
    return None


def check(case, rec):
    if case["kind"] == "list":
        return listed(case, rec)
    return grow(case, rec, case.get("wrong"))


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
