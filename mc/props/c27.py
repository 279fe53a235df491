"""C27: the legacy indices keep returning the numbers of version 0."""
from .. import common as C
from .. import legacy
from ..target import np

from cvi import compat                     # noqa: E402

ID = "C27"
LEGACY = ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"]
BOUNDS = {
    "quick": "all canonical cluster-number words of n=7 (2 features), n=6 (1,3 features), all streams over 2d grids of 2 (n=6) and 3 (n=5) points and a 1d "
             "grid of 3 (n=5); scales 2^-60 and 2^60; returns to each of 2..20 clusters; 2..65 clusters, 24 feature counts up to 100, streams up to 530 samples; every "
             "prefix against the reference model",
    "thorough": "as quick with words one longer",
}
ASSUMPTIONS = ["the reference model is the version 0 recursion in exact terms: its correction sums are identically zero",
               "states whose denominator vanishes up to rounding are skipped and counted"]


def chunks(tier):
    t = tier == "thorough"
    out = C.E1(2, 8 if t else 7, 0)
    for d in (1, 3):
        out += C.E1(d, 7 if t else 6, 0)
    out += C.E2("2d2", 7 if t else 6)
    out += C.E2("2d3", 6 if t else 5)
    out += C.E2("1d3", 6 if t else 5)
    for e in (-60, 60):
        out += C.E1(2, 5, 2, e=e)
    for K in (2, 3, 5, 10, 20):
        out += C.FK(2, K)
    for sizes in ((100, 100), (1, 199), (50, 50, 50, 50), (66, 1, 133)):
        for order in ("block", "robin"):
            out += C.FS(2, sizes, order)
    return out + C.wide(dmax=100, kmax=65, nmax=530)


def cases(c):
    for d, e, pts, labels, m0 in C.expand(c):
        for name in LEGACY:
            yield dict(C.describe(name, d, e, pts, labels), m0=m0)


def check(case, rec):
    name, pts, labels = case["index"], case["points"], case["labels"]
    o = compat.iCVI(name)
    m = legacy.MODELS[name]()
    X = C.array(pts, case["e"])
    for i, l in enumerate(labels):
        v = C.scalar(o.update(X[i].copy(), l))
        ref = m.update(X[i].tolist(), l)
        rec.transitions += 1
        if i + 1 < case["m0"]:
            continue
        if ref is None:
            rec.undefined += 1
            continue
        rec.checked += 1
        if not (v == ref[0] or abs(v - ref[0]) <= ref[1] + 2e-6 * abs(ref[0])):
            return "%s after %d samples (cluster numbers %r): %r, version 0 gives %r" % (name, i + 1, labels[:i + 1][-20:], v, ref[0])
        rec.outcome(round(v, 9) if abs(v) < 1e6 else v)
        rec.state(hash((C.tup(pts[:i + 1]), tuple(labels[:i + 1]))) if i < 12 else hash((i, l, len(pts))))
    rec.traces += 1
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
