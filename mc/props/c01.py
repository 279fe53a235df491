"""C01: the incremental value equals the batch value at every point of a stream."""
from .. import common as C
from .. import model

ID = "C01"
BOUNDS = {
    "quick": "all canonical label sequences: length 7 on generic points in 1,2,3,5 features (2 point sets each), length 8 in "
             "2 features, length 5 at 5 scales/5 offsets (up to 2^26) and in 8,16,33 features; all point assignments x label sequences: "
             "1d grid of 3 n=5, 2d grids of 3 n=5 and 4 n=4, 3d grid of 3 n=4, three more 2d grids n=4; 3..70 clusters with a "
             "return to every cluster; every prefix, nine indices; 27 feature counts up to 300, 30 cluster counts up to 300; 4 other label maps and 40-bit coordinates, length 5, streams of "
             "41 scales from 2^-60 to 2^60 length 4, concentric clusters; up to 1100 samples in 4 arrival patterns, returns to a cluster untouched for up to 2600 samples (prefixes around powers of two)",
    "thorough": "as quick with lengths 9 (2 features), 8 (1,3,5 features), grids n=6 (1d3, 2d3), n=5 (2d4, 3d3, 2doff)",
}
ASSUMPTIONS = ["inputs are integers times a power of two; values outside the alphabet are not explored",
               "comparison tolerance 1e-9 relative (plus rounding of degenerate differences)"]


def chunks(tier):
    out = []
    t = tier == "thorough"
    for d in (1, 2, 3, 5):
        for seed in (0, 1):
            out += C.E1(d, 8 if t else 7, seed)
    out += C.E1(2, 9 if t else 8, 2)
    for d in (1, 2, 3):
        for e in (-30, -8, 9, 30):
            out += C.E1(d, 6 if t else 5, 4, e=e)
        for off in (60, 1000, 2 ** 20, 2 ** 26):
            out += C.E1(d, 6 if t else 5, 5, off=off)
    for d in (8, 16, 33):
        out += C.E1(d, 5, 6)
    out += C.E2("1d3", 6 if t else 5)
    out += C.E2("2d3", 6 if t else 5)
    out += C.E2("2d4", 5 if t else 4)
    out += C.E2("3d3", 5 if t else 4)
    out += C.E2("2doff", 5 if t else 4)
    for d in (1, 2, 7):
        for K in (3, 4, 5, 6, 9, 14) + ((40, 70) if t or d == 2 else ()):
            out += C.FK(d, K)
    for g in ("2dconst", "2dneg"):
        out += C.E2(g, 5 if t else 4)
    for e in (-200, -100, 100, 200):
        out += C.E1(2, 5, 4, e=e)
    for n in (140, 400, 2600):                 # a cluster untouched for n samples, then a return to it
        out.append(dict(fam="L", d=2, n=n))
    out += C.extra_E1(6 if t else 5)
    out += C.ladder(5 if t else 4)
    out += C.nested(2, 5) + C.nested(3, 4)
    out += C.wide()
    out.sort(key=lambda c: -c["n"] if c["fam"] in ("L", "W") else 0)
    return out


def check_case(case):
    return C.guarded(_check, case)


def _check(case):
    name, d, e = case["index"], case["d"], case["e"]
    pts, labels = C.tup(case["points"]), case["labels"]
    X = C.array(pts, e)
    inc = C.stream_values(name, X, labels)
    for m in case.get("prefixes") or [len(labels)]:
        st = C.build(d, e, pts, labels, m)
        ref = model.evaluate(st, name)
        msg = compare(name, st.k, d, ref, inc[m - 1], C.batch_value(name, X[:m], labels[:m]), m)
        if msg:
            return msg
    return None


def compare(name, k, d, ref, vi, vb, m):
    # the reference only supplies definedness and the scale of the tolerance; incremental is compared with batch
    if C.near(vi, vb, 2 * ref[1]):
        return None
    return "%s after %d samples, %d clusters, %d features: incremental %r, batch %r" % (name, m, k, d, vi, vb)


def expand(c):
    if c["fam"] == "L":
        n = c["n"]
        labels = (0, 1, 2, 0, 1) + (1, 2) * (n // 2) + (0, 0, 1, 0)
        pts = C.space.cloud(c["d"], len(labels), 3, spread=61)
        yield c["d"], 0, tuple(tuple(a + 17 * l for a in p) for p, l in zip(pts, labels)), labels, n
    else:
        yield from C.expand(c)


def run(chunk, rec):
    for d, e, pts, labels, m0 in expand(chunk):
        X = C.array(pts, e)
        n = len(labels)
        names = C.names_for(e)
        st = C.build(d, e, pts, labels, m0 - 1)
        todo = {name: [] for name in names}
        at = set(C.marks(n, k=len(set(labels)), every=True)) if n > 40 else range(n + 1)
        found = False
        for m in range(m0, n + 1):
            st.add(pts[m - 1], labels[m - 1])
            if st.k < 2 or m not in at:
                continue
            found = True
            rec.state(model.canon(d, e, pts[:m], labels[:m]))
            for name in names:
                ref = model.evaluate(st, name)
                if ref is None:
                    rec.undefined += 1
                elif ref[1] == float("inf"):
                    rec.ill += 1
                else:
                    todo[name].append((m, st.k, ref))
        if not found:
            continue
        for name in names:
            try:
                inc = C.stream_values(name, X, labels)
            except Exception as ex:
                if isinstance(ex, C.Interrupted):
                    raise
                rec.fail(C.describe(name, d, e, pts, labels), "%s: incremental call %s" % (name, C.exception_text(ex)))
                return
            rec.transitions += n
            rec.traces += 1
            for m, k, ref in todo[name]:
                try:
                    vb = C.batch_value(name, X[:m], labels[:m])
                except Exception as ex:
                    if isinstance(ex, C.Interrupted):
                        raise
                    rec.fail(C.describe(name, d, e, pts[:m], labels[:m]), "%s: batch call %s" % (name, C.exception_text(ex)))
                    return
                rec.transitions += 1
                rec.checked += 1
                rec.outcome(vb)
                msg = compare(name, k, d, ref, inc[m - 1], vb, m)
                if msg:
                    rec.fail(C.describe(name, d, e, pts[:m], labels[:m]), msg)
                    return
            if n < 20:
                rec.sample(dict(C.describe(name, d, e, pts, labels), incremental=inc[-1]))
