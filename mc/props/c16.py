"""C16: defined values lie in the range of the index."""
import math

from .. import batchdef
from .. import common as C
from .. import model
from ..target import NAMES, np

ID = "C16"
BOUNDS = {
    "quick": "all canonical label sequences of n=6 (generic, 1,2,3,5 features; 2 features n=7), 6 scales and 4 offsets (up to 2^26) n=5, 41 scales from 2^-60 to 2^60 n=4, concentric clusters, all grid "
             "streams 1d3 n=5, 2d3 n=5, 2d4 n=4, 3d3 n=4, four more 2d grids n=4, 3..40 clusters, size vectors {1,2,9}^3; 27 feature counts up to 300, 30 cluster counts "
             "up to 300; 4 other label maps and 40-bit coordinates, n=5; 41 scales from 2^-60 to 2^60, n=4; all sets of up to 6 concentric clusters with 5 radii; streams up to 1100 samples; every stream point and every batch",
    "thorough": "as quick with n=8 (2 features), n=7 generic, grids one longer",
}
ASSUMPTIONS = ["end points are compared up to rounding"]


def chunks(tier):
    t = tier == "thorough"
    out = []
    for d in (1, 2, 3, 5):
        out += C.E1(d, 7 if t else 6, 0)
    out += C.E1(2, 8 if t else 7, 2)
    for d in (1, 2):
        for e in (-200, -100, -30, 9, 100, 200):
            out += C.E1(d, 5, 4, e=e)
        for off in (60, 1000, 2 ** 20, 2 ** 26):
            out += C.E1(d, 5, 5, off=off)
    out += C.E2("1d3", 6 if t else 5)
    out += C.E2("2d3", 6 if t else 5)
    out += C.E2("2d4", 5 if t else 4)
    out += C.E2("3d3", 5 if t else 4)
    for d in (1, 2, 7):
        for K in (3, 5, 9, 40):
            out += C.FK(d, K)
    for d in (1, 2, 4):
        for a in (1, 2, 9):
            for b in (1, 2, 9):
                for c in (1, 2, 9):
                    out += C.FS(d, (a, b, c), "robin")
    for g in ("2dconst", "2dneg", "2dline", "2doff"):
        out += C.E2(g, 5 if t else 4)
    out += C.extra_E1(6 if t else 5)
    out += C.ladder(4)
    for d in (1, 2):
        out += C.nested(d, 6)
    out += C.wide()
    return batchdef.group(out)


def bad(name, v, k, tol):
    if not math.isfinite(v):
        return "not finite"
    if name == "cSIL":
        return None if -1 - tol <= v <= 1 + tol else "outside [-1, 1]"
    if name == "PS":
        return None if -k - tol <= v <= k + tol else "outside [-%d, %d]" % (k, k)
    return None if v >= -tol else "negative"


def check(case, rec):
    name, d, e, m0 = case["index"], case["d"], case["e"], case["m0"]
    pts, labels = case["points"], case["labels"]
    X = C.array(pts, e)
    st = C.build(d, e, pts, labels, m0 - 1)
    vals = C.stream_values(name, X, labels)
    n = len(labels)
    rec.transitions += n
    rec.traces += 1
    at = set(C.marks(n, k=len(set(labels)))) if n > 40 else range(n + 1)
    for i in range(m0 - 1, n):
        st.add(pts[i], labels[i])
        if st.k < 2 or i + 1 not in at:
            continue
        r = model.evaluate(st, name)
        if r is None:
            rec.undefined += 1
            continue
        if r[1] == float("inf"):
            rec.ill += 1
            continue
        rec.state(model.canon(d, e, C.tup(pts[:i + 1]), labels[:i + 1]))
        b = C.batch_value(name, X[:i + 1], labels[:i + 1])
        rec.transitions += 1
        rec.checked += 2
        rec.outcome(b)
        for what, v in (("incremental", vals[i]), ("batch", b)):
            msg = bad(name, v, st.k, r[1])
            if msg:
                return "%s %s value of %d samples in %d clusters is %s: %r" % (name, what, i + 1, st.k, msg, v)
    return None


def cases(chunk):
    for part in batchdef.parts(chunk):
        for d, e, pts, labels, m0 in C.expand(part):
            for name in C.names_for(e):
                yield dict(C.describe(name, d, e, pts, labels), m0=m0)


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
