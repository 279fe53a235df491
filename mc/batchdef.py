"""Batch values against the published definitions (C02, C03, C04)."""
import itertools

from . import common as C
from . import model

BOUNDS = {
    "quick": "all canonical label sequences of length up to 7 on generic points in 1,2,3,5 features (2 point sets), up to 8 in 2 "
             "features, up to 5 in 8,16,33 features and at 4 scales / 4 offsets (up to 2^26); all assignments of grid points x label "
             "sequences: 1d grid of 3 up to n=5, 2d grid of 3 up to n=5, of 4 up to n=4, 3d grid of 3 up to n=4; up to 300 "
             "clusters, 27 feature counts up to 300; 4 other label maps and 40-bit coordinates, up to n=5; all sizes (m,3), (5,m), m=1..130; all cluster-size vectors from {1,2,3,9,40}^k, k=2,3, and {1,2,7}^4, in 3 row orders and 1,2,4 "
             "features; 41 scales from 2^-60 to 2^60, up to n=5; all sets of up to 6 concentric clusters with 5 radii; single batches of 300 to 3000 and of 22000 to 70000 rows",
    "thorough": "as quick with label sequences up to length 9 (2 features) and 8, grids up to n=6 (1d3, 2d3) and n=5 (2d4, 3d3), "
                "sizes {1,2,3,9,40,200}^3 and {1,2,7,30}^4",
}
ASSUMPTIONS = ["inputs are integers times a power of two; values outside the alphabet are not explored",
               "reference values are exact up to a few ulp; tolerance 1e-9 relative, widened only by the conditioning of the case"]


def chunks(tier):
    out = []
    t = tier == "thorough"
    for d in (1, 2, 3, 5):
        for seed in (0, 1):
            out += C.E1(d, 8 if t else 7, seed)
    out += C.E1(2, 9 if t else 8, 2)
    for d in (1, 2, 3):
        for e in (-30, -8, 9, 30):
            out += C.E1(d, 6 if t else 5, 4, e=e)
        for off in (60, 1000, 2 ** 20, 2 ** 26):
            out += C.E1(d, 6 if t else 5, 5, off=off)
    for d in (8, 16, 33):
        out += C.E1(d, 5, 6)
    out += C.E2("1d3", 6 if t else 5)
    out += C.E2("2d3", 6 if t else 5)
    out += C.E2("2d4", 5 if t else 4)
    out += C.E2("3d3", 5 if t else 4)
    for d in (1, 2, 7):
        for K in (3, 4, 5, 6, 9, 14):
            out += C.FK(d, K)
    for K in (33, 70, 130):
        out += C.FK(2, K)[::1 if t else 16]
    for g in ("2dconst", "2dneg", "2dline"):
        out += C.E2(g, 5 if t else 4)
    for e in (-200, -100, 100, 200):
        out += C.E1(2, 5, 4, e=e)
    out += C.extra_E1(6 if t else 5)
    out += C.ladder(5)
    for d in (1, 2):
        out += C.nested(d, 6)
    out += C.wide()
    for m in range(1, 131):
        out += C.FS(2, (m, 3), "robin", seed=1) + C.FS(1, (5, m), "back", seed=2)
    for d in (1, 2, 4):
        for order in ("block", "robin", "back"):
            for k, alpha in (((2, (1, 2, 3, 9, 40)), (3, (1, 2, 3, 9, 40)), (4, (1, 2, 7))) if not t else
                             ((2, (1, 2, 3, 9, 40, 200)), (3, (1, 2, 3, 9, 40, 200)), (4, (1, 2, 7, 30)))):
                for sizes in itertools.product(alpha, repeat=k):
                    out += C.FS(d, sizes, order)
    for sizes in ((300, 1), (1, 300), (150, 149, 2), (1000, 1000), (3, 2000, 997), (500, 5, 50, 1, 250, 600)):
        for order in ("block", "robin"):
            for d in (2, 3):
                out += C.FS(d, sizes, order, seed=5)
    for sizes in ((40000, 30000), (5, 70000), (10001, 1, 12000)):
        out += C.FS(2, sizes, "robin", seed=5)
    return group(out)


def group(chunks, size=24):
    """Bundles the one-case chunks."""
    wide = sorted((c for c in chunks if c["fam"] == "W"), key=lambda c: -c["n"] * c["K"] - c["d"] * c["d"])
    big = [c for c in chunks if c["fam"] not in ("S", "K", "W", "N")]
    small = [c for c in chunks if c["fam"] in ("S", "K", "N")]
    return wide + big + [dict(fam="many", parts=small[i::max(1, len(small) // size)]) for i in range(max(1, len(small) // size))]


def parts(chunk):
    return chunk["parts"] if chunk["fam"] == "many" else [chunk]


def check_case(case):
    return C.guarded(_check, case)


def _check(case):
    pts = C.tup(case["points"])
    st = C.build(case["d"], case["e"], pts, case["labels"])
    ref = model.evaluate(st, case["index"])
    v = C.batch_value(case["index"], C.array(pts, case["e"]), case["labels"])
    return compare(case["index"], st, ref, v)


def compare(name, st, ref, v):
    if C.close(v, ref):
        return None
    return "%s batch of %d samples, %d clusters, %d features: reported %r, definition %r (tolerance %.3g)" % (
        name, st.n, st.k, st.d, v, ref[0], ref[1])


def run(chunk, rec, names):
    for part in parts(chunk):
        for d, e, pts, labels, m0 in C.expand(part):
            X = C.array(pts, e)
            n = len(labels)
            st = C.build(d, e, pts, labels, m0 - 1)
            at = set(C.marks(n, k=len(set(labels)))) if n > 40 else range(n + 1)
            for m in range(m0, n + 1):
                st.add(pts[m - 1], labels[m - 1])
                if st.k < 2 or m not in at:
                    continue
                rec.state(model.canon(d, e, pts[:m], labels[:m]))
                lab = C.np.array(labels[:m])
                for name in names:
                    if name == "rCIP" and e > 10:
                        continue
                    ref = model.evaluate(st, name)
                    if ref is None:
                        rec.undefined += 1
                        continue
                    if ref[1] == float("inf"):
                        rec.ill += 1
                        continue
                    msg = C.guarded(_one, name, st, ref, X[:m], lab, rec)
                    if msg:
                        rec.fail(C.describe(name, d, e, pts[:m], labels[:m]), msg)
                        return
                    rec.sample(dict(C.describe(name, d, e, pts[:m][:12], labels[:m][:12]), rows=m, definition=ref[0]))


def _one(name, st, ref, X, lab, rec):
    v = C.scalar(C.new(name).get_cvi(X, lab))
    rec.transitions += 1
    rec.traces += 1
    rec.checked += 1
    rec.outcome(v)
    return compare(name, st, ref, v)
