"""C07: values depend only on the geometry of the data."""
import itertools

from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C07"
BOUNDS = {
    "quick": "all canonical label sequences of n=5 (generic points, 1,2,3 features) and all streams over a 2-point 2d grid of n=4, "
             "n=4 in 5 features; each under 11 translations (up to 2^26), all feature permutations, all reflections, 3 rotations (exact "
             "3-4-5 and 3-d rational, planes in more features), 14 scalings from 2^-200 to 2^200, 41 more for n=4; every stream point and the batch; 7 "
             "transformations of streams with up to 65 features, 33 clusters, 140 samples",
    "thorough": "as quick with n=6 (generic), n=5 (grid) and n=5 in 5 features",
}
ASSUMPTIONS = ["transformations are exact on the integer data (rational rotations, powers of two and small integers)"]
R2 = [[3, -4], [4, 3]]                              # 5 x rotation
R2B = [[5, 12], [-12, 5]]                           # 13 x rotation
R3 = [[2, -1, 2], [2, 2, -1], [-1, 2, 2]]           # 3 x rotation
TRANS = [(1, 0), (0, 1), (-7, 3), (64, 64), (-1000, 1000), (1000, -999), (4096, 0), (-33, -33), (9, 20000),
         (2 ** 20, -2 ** 20), (2 ** 26, 2 ** 26 + 1)]


def plane(d, i, j):
    """5 x a 3-4-5 rotation in the plane of two features."""
    m = [[5 * (a == b) for a in range(d)] for b in range(d)]
    m[i][i] = m[j][j] = 3
    m[i][j], m[j][i] = -4, 4
    return [m, 5]


def transformations(d):
    for t in TRANS:
        yield "translate", [t[i % 2] for i in range(d)]
    for p in itertools.permutations(range(d)) if d <= 4 else [tuple(range(d))[::-1], tuple(range(1, d)) + (0,)]:
        if p != tuple(range(d)):
            yield "permute", list(p)
    for s in itertools.product((1, -1), repeat=d):
        if -1 in s and (d <= 3 or s.count(-1) in (1, d)):
            yield "reflect", list(s)
    if d == 2:
        yield "rotate", [R2, 5]
        yield "rotate", [R2B, 13]
    if d == 3:
        yield "rotate", [R3, 3]
    if d > 3:
        yield "rotate", plane(d, 0, 1)
        yield "rotate", plane(d, 1, d - 1)
    for c in (-1, 2, 3, -5, 10, 1000):
        yield "scale", [c, 0]
    for e in (-200, -100, -40, -20, -1, 40, 100, 200):
        yield "scale", [1, e]


def chunks(tier):
    t = tier == "thorough"
    out = []
    for d in (1, 2, 3):
        out += [dict(base=c, tr=list(tr)) for c in C.E1(d, 6 if t else 5, 0, split=1) for tr in transformations(d)]
    out += [dict(base=c, tr=list(tr)) for c in C.E2("2d2", 5 if t else 4, split=1) for tr in transformations(2)]
    out += [dict(base=c, tr=list(tr)) for c in C.E1(5, 5 if t else 4, 0, split=1) for tr in transformations(5)]
    out += [dict(base=c, tr=["scale", [1, e]]) for e in range(-60, 61, 3) for c in C.E1(2, 4, 3, split=1)]
    for sizes in ((9, 7, 11), (1, 30), (5, 5, 5, 5, 5)):
        out += [dict(base=C.FS(2, sizes, "robin")[0], tr=list(tr)) for tr in transformations(2)]
    for w in C.wide(dmax=65, kmax=33, nmax=140):
        d = w["d"]
        out += [dict(base=w, tr=tr) for tr in wide_transformations(d)]
    return out


def wide_transformations(d):
    rot = [["rotate", plane(d, 0, d // 2)], ["rotate", plane(d, d - 2, d - 1)]] if d > 2 else []
    return rot + [["translate", [(700, -300)[i % 2] for i in range(d)]], ["reflect", [-1 if i % 3 == 0 else 1 for i in range(d)]],
            ["scale", [-3, 0]], ["scale", [1, -30]]] + ([["permute", list(range(1, d)) + [0]]] if d > 1 else [])


def apply(tr, pts):
    """(transformed integer points, reference integer points, e of the transformed data, factor on GD43)"""
    kind, a = tr
    if kind == "translate":
        return tuple(tuple(x + y for x, y in zip(p, a)) for p in pts), pts, 0, 1.0
    if kind == "permute":
        return tuple(tuple(p[i] for i in a) for p in pts), pts, 0, 1.0
    if kind == "reflect":
        return tuple(tuple(x * s for x, s in zip(p, a)) for p in pts), pts, 0, 1.0
    if kind == "rotate":
        m, f = a
        return (tuple(tuple(sum(r * x for r, x in zip(row, p)) for row in m) for p in pts),
                tuple(tuple(f * x for x in p) for p in pts), 0, 1.0)
    c, e = a
    return tuple(tuple(c * x for x in p) for p in pts), pts, e, abs(c) * 2.0 ** e


def cases(c):
    for d, e, pts, labels, m0 in C.expand(c["base"]):
        if max(labels) == 0:
            continue
        for name in NAMES:
            if name == "rCIP" and c["tr"][0] == "scale" and tuple(c["tr"][1]) != (-1, 0):
                continue
            yield dict(index=name, points=[list(p) for p in pts], labels=list(labels), m0=m0, tr=c["tr"])


_memo = {}


def values(name, pts, labels, e):
    key = name, pts, tuple(labels), e
    if key not in _memo:
        if len(_memo) > 400:
            _memo.clear()
        X = C.array(pts, e)
        st = model.State(len(pts[0]), e)
        refs = []
        at = C.marks(len(pts), k=len(set(labels))) if len(pts) > 40 else range(len(pts) + 1)
        for i, (p, l) in enumerate(zip(pts, labels)):
            st.add(p, l)
            refs.append(model.evaluate(st, name) if st.k > 1 and i + 1 in at else None)
        _memo[key] = C.stream_values(name, X, labels), C.batch_value(name, X, labels), refs
    return _memo[key]


def check(case, rec):
    name, labels = case["index"], case["labels"]
    new, old, e, f = apply(case["tr"], C.tup(case["points"]))
    f = f if name == "GD43" else 1.0
    i1, b1, r1 = values(name, old, labels, 0)
    i2, b2, r2 = values(name, new, labels, e)
    rec.state(hash((new, tuple(labels), e)))
    rec.transitions += len(labels) + 1
    rec.traces += 2
    pairs = [("incremental value %d" % (m + 1), i1[m], i2[m], r1[m], r2[m]) for m in range(case["m0"] - 1, len(labels))]
    pairs.append(("batch", b1, b2, r1[-1], r2[-1]))
    for what, a, b, ra, rb in pairs:
        if ra is None or rb is None:
            rec.undefined += 1
            continue
        tol = 2 * ra[1] + 2 * rb[1] * f
        if tol == float("inf"):
            rec.ill += 1
            continue
        rec.checked += 1
        rec.outcome(b)
        if not C.near(b * f, a, tol):
            return "%s %s: %r, after %s %r: %r%s" % (name, what, a, case["tr"][0], case["tr"][1], b,
                                                      "" if f == 1.0 else " (expected the first divided by %r)" % f)
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
