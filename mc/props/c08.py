"""C08: a stream with a single cluster reports exactly zero, and is not forgotten afterwards."""
import itertools

from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C08"
BOUNDS = {
    "quick": "all words over 3 points (1 and 2 features) of length up to 5 as one-cluster phase, followed by every continuation "
             "of 2 samples over 2 labels; 6 label pairs; one-cluster phases of every length up to 120 and 8 lengths up to 3000 in "
             "1,2,3,8 features, 5000 and 10001 in 2 features, 5 lengths in 15 other feature counts up to 100; 5 scales; all words of length 3 "
             "over 10 special values (not-a-number, infinities, huge, tiny) in 1,2,3 features",
    "thorough": "as quick with words up to length 7, every phase length up to 400, and 20000",
}
ASSUMPTIONS = ["inputs are integers times a power of two"]
PAIRS = [(0, 1), (1, 0), (-1, 7), (5, 0), (1000, -1000), (3, 2)]
GRID = {1: ((0,), (3,), (-2,)), 2: ((0, 0), (3, 1), (-2, 5))}


def chunks(tier):
    t = tier == "thorough"
    out = []
    for name in NAMES:
        for d in (1, 2):
            for n in range(1, 8 if t else 6):
                out.append(dict(kind="words", index=name, d=d, n=n))
        for d in (1, 2, 3, 8):
            out.append(dict(kind="long", index=name, d=d, ns=list(range(1, 401 if t else 121, 3 if d > 2 else 1))))
            out.append(dict(kind="long", index=name, d=d, ns=[200, 256, 257, 300, 513, 1000, 1025, 3000] + ([20000] if t else [])))
        for d in (4, 5, 6, 7, 9, 10, 12, 16, 17, 20, 32, 33, 64, 65, 100):
            out.append(dict(kind="long", index=name, d=d, ns=[1, 2, 3, 9, 40]))
        out.append(dict(kind="long", index=name, d=2, ns=[5000, 10001]))
        out.append(dict(kind="special", index=name))
    return out


SPECIAL = [0.0, 1.0, float("nan"), float("inf"), -float("inf"), 1e300, -1e300, 1e-310, -0.0, 1e160]


def special(case, rec):
    name, d = case["index"], case["d"]
    o = C.new(name)
    for i, s in enumerate(case["special"]):
        x = np.full(d, float(i))
        x[i % d] = SPECIAL[s]
        v = C.scalar(o.get_cvi(x, case["pair"][0]))
        rec.transitions += 1
        rec.checked += 1
        if not v == 0.0:
            return "%s: call %d of a one-cluster stream (sample %r) returned %r" % (name, i + 1, x.tolist(), v)
    rec.traces += 1
    rec.state(hash((name, d, tuple(case["special"]))))
    return None


def cases(c):
    d = c.get("d")
    if c["kind"] == "words":
        for i, w in enumerate(itertools.product(range(3), repeat=c["n"])):
            e = (0, -40, 12, 0, -8)[i % 5] if c["index"] != "rCIP" else (0, -40, 3, 0, -8)[i % 5]
            yield dict(index=c["index"], d=d, e=e, pair=list(PAIRS[i % 6]), points=[list(GRID[d][x]) for x in w])
    elif c["kind"] == "special":
        # whatever the samples are: not-a-number, infinite, huge, tiny, in every order
        for d_ in (1, 2, 3):
            for w in itertools.product(range(len(SPECIAL)), repeat=3):
                yield dict(index=c["index"], d=d_, e=0, pair=list(PAIRS[w[0] % 6]), special=list(w))
    else:
        for n in c["ns"]:
            yield dict(index=c["index"], d=d, e=0, pair=list(PAIRS[n % 6]), n=n)


def tails(d):
    far = GRID[d] if d in GRID else tuple(space.generic(d, 3, 2))
    return [((far[a], x), (far[b], y)) for a, b in ((0, 1), (1, 2)) for x, y in ((1, 1), (1, 0))] if d > 2 else \
        [((far[a], 1), (far[b], y)) for a in range(3) for b in range(3) for y in (0, 1)]


def check(case, rec):
    if "special" in case:
        return special(case, rec)
    name, d, e = case["index"], case["d"], case["e"]
    pts = C.tup(case["points"]) if "points" in case else space.cloud(d, case["n"], 2)
    la, lb = case["pair"]
    tl = tails(d)
    if len(pts) > 200:
        tl = tl[:1]
    X = C.array(pts, e)
    for tail in tl:
        o = C.new(name)
        for i in range(len(pts)):
            v = o.get_cvi(X[i].copy(), la)
            rec.transitions += 1
            if not (C.scalar(v) == 0.0):
                return "%s: call %d of a one-cluster stream returned %r" % (name, i + 1, v)
        rec.checked += len(pts)
        rec.traces += 1
        st = C.build(d, e, pts, [0] * len(pts))
        for p, l in tail:
            st.add(p, l)
            v = C.scalar(o.get_cvi(C.array(p, e), (la, lb)[l]))
            rec.transitions += 1
            ref = model.evaluate(st, name)
            if ref is None:
                rec.undefined += 1
            elif ref[1] == float("inf"):
                rec.ill += 1
            else:
                rec.checked += 1
                rec.outcome(v)
                if not C.close(v, ref):
                    return "%s: %d one-cluster samples then %r: reported %r, value of the data %r" % (
                        name, len(pts), tail[:st.n - len(pts)], v, ref[0])
            rec.state(hash((name, len(pts), pts[:6], p, l, st.n, e + 1000)))
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
