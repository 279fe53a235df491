"""C15: undefined intermediate values do not contaminate later ones."""
import itertools

from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C15"
BOUNDS = {
    "quick": "all assignments of grid points x canonical label sequences: 1d grid of 3 n=5 (n=6 with 2 clusters), 2d grid of 2 n=6, 2d grid of 3 n=5, 2d line "
             "n=5, 3d grid of 2 n=5, incremental mode, every defined point that follows an undefined one; c clusters opened on m copies of one point each "
             "(coinciding or not) then 8 diverging samples, c=2..6, m=1..12, 1,2,4 features, 3 scales; 17 further (c, m, features) up to c=40, m=300, 64 features",
    "thorough": "as quick with 1d3 n=6 (n=7 with 2 clusters), 2d2 n=7, 2d3 n=6, 2dline n=6, 3d2 n=6 and m up to 60",
}
ASSUMPTIONS = ["inputs are integers times a power of two; degenerate means exactly degenerate"]


def chunks(tier):
    t = tier == "thorough"
    out = []
    for grid, n in (("1d3", 5), ("2d2", 6), ("2d3", 5), ("2dline", 5), ("3d2", 5)):
        out += [dict(base=c) for c in C.E2(grid, n + 1 if t else n)]
    out += [dict(base=c) for c in C.E2("1d3", 7 if t else 6, kmax=2)]
    for c in range(2, 7):
        for m in list(range(1, 13)) + ([20, 40, 60] if t else []):
            for d in (1, 2, 4):
                out.append(dict(clusters=c, m=m, d=d))
    for c, m, d in ((2, 1, 8), (3, 2, 8), (3, 1, 16), (2, 3, 17), (3, 1, 33), (2, 1, 64), (8, 1, 2), (8, 2, 3), (12, 1, 2), (20, 1, 3),
                    (33, 1, 2), (40, 2, 2), (2, 30, 2), (2, 64, 1), (2, 130, 2), (3, 100, 2), (2, 300, 1)):
        out.append(dict(clusters=c, m=m, d=d))
    return out


def degenerate(c, m, d):
    """Streams with exactly degenerate openings."""
    far = [tuple(5 * (i + 1) * (1 if j % 2 else -1) + j for j in range(d)) for i in range(c)]
    tail = [(p, i % c) for i, p in enumerate(space.generic(d, 8 if c < 8 else c + 3, 9))]
    for same in (0, 1, 2):                     # all clusters on one point / two on one point / all apart
        pos = [far[0] if same == 0 or (same == 1 and i < 2) else far[i] for i in range(c)]
        for order in (0, 1):
            head = [(pos[i], i) for i in range(c) for _ in range(m)] if order == 0 else [(pos[i], i) for _ in range(m) for i in range(c)]
            for tl in (tail, [(p, c - 1) for p, _ in tail], [(p, 0) for p, _ in tail]):
                for e in (0, -20, 3):
                    yield [p for p, _ in head + tl], [l for _, l in head + tl], e


def cases(c):
    if "base" in c:
        for d, e, pts, labels, m0 in C.expand(c["base"]):
            for name in NAMES:
                yield dict(C.describe(name, d, e, pts, labels), m0=m0)
    else:
        for pts, labels, e in degenerate(c["clusters"], c["m"], c["d"]):
            for name in NAMES:
                yield dict(C.describe(name, c["d"], e, pts, labels), m0=1)


def check(case, rec):
    name, d, e, m0 = case["index"], case["d"], case["e"], case["m0"]
    pts, labels = case["points"], case["labels"]
    n = len(labels)
    st = model.State(d, e)
    refs = []
    seen = False
    for i in range(n):
        st.add(pts[i], labels[i])
        if st.k < 2:
            refs.append(None)
            continue
        r = model.evaluate(st, name)
        if r is None:
            seen = True
            rec.undefined += 1
        refs.append(r if seen and i + 1 >= m0 else None)
    if not seen:
        return None
    o = C.new(name)
    X = C.array(pts, e)
    rec.traces += 1
    rec.transitions += n
    rec.state(model.canon(d, e, C.tup(pts), labels))
    for i in range(n):
        try:
            v = C.scalar(o.get_cvi(X[i].copy(), labels[i]))
        except Exception as ex:
            if isinstance(ex, C.Interrupted):
                raise
            return "%s: sample %d of a stream with undefined points %s" % (name, i + 1, C.exception_text(ex))
        rec.checked += 1
        r = refs[i]
        if r is None:
            continue
        if r[1] == float("inf"):
            rec.ill += 1
            continue
        rec.outcome(v)
        if not C.close(v, r):
            return "%s: after undefined points, sample %d of %d reports %r, value of the data %r" % (name, i + 1, n, v, r[0])
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
