"""C05: label values are only names."""
import itertools

from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C05"
ALPHABET = [0, 1, 2, 3, -1, -2, 5, 10, 100, 127, 128, 255, 256, 257, 1000, 65536, 2**31 - 1, 2**31, 2**32, 2**32 + 1,
            2**53, 2**53 + 1, -2**31, 2**61 - 1, 2**61, -2**63, 2**63 - 1]
SMALL = [0, 1, -1, 2, 3, 256, 10**6, 10**6 + 1]
BOUNDS = {
    "quick": "all injective label assignments: 2 clusters into the 27-value alphabet, 3 clusters into the alphabet (17550), 4 "
             "clusters into 8 values (1680); every stream point and the batch; 81 consecutive labels -40..40 in 4 orders; "
             "every assignment of integer types to the occurrences of a label (2 labels x 3 occurrences, 4 types); integers beyond 64 bits in streams; 6 relabellings of streams "
             "with up to 64 (and 257) features, 65 (and 260) clusters, 300 samples",
    "thorough": "as quick, plus 3-cluster assignments on a second word and in 1 and 3 features, and 200 labels",
}
ASSUMPTIONS = ["batch labels are integers that fit in 64 bits; values outside the alphabet are not explored"]
WORDS = {2: (0, 1, 0, 1, 1), 3: (0, 1, 2, 0, 2, 1), 4: (0, 1, 2, 3, 1, 3, 0)}
WORDS2 = {3: (0, 0, 1, 0, 2, 2, 1)}
KINDS = {"int": int, "int64": np.int64, "int32": np.int32, "int16": np.int16, "uint8": np.uint8}


def chunks(tier):
    t = tier == "thorough"
    out = []
    for a in ALPHABET:
        out.append(dict(kind="maps", k=2, d=2, first=a, alpha="A", word=1))
        out.append(dict(kind="maps", k=3, d=2, first=a, alpha="A", word=1))
        if t:
            out.append(dict(kind="maps", k=3, d=2, first=a, alpha="A", word=2))
            for d in (1, 3):
                out.append(dict(kind="maps", k=3, d=d, first=a, alpha="A", word=1))
    for a in SMALL:
        out.append(dict(kind="maps", k=4, d=2, first=a, alpha="S", word=1))
    for n in NAMES:
        out += [dict(kind="range", index=n, order=o, m=100 if t else 40) for o in ("up", "down", "zig", "mod")]
        out.append(dict(kind="types", index=n))
        out.append(dict(kind="big", index=n))
    out += [dict(kind="wide", spec=w) for w in C.wide(dmax=64, kmax=65, nmax=300, many=True)]
    return out


MAPS = {"neg": lambda l, k: -1 - l, "rev": lambda l, k: k - 1 - l, "sparse": lambda l, k: 1000003 * l - 7,
        "alt": lambda l, k: (l // 2 + 1) * (-1) ** l * 2 ** 20, "near": lambda l, k: 2 ** 53 + l, "one": lambda l, k: l + 1}


def cases(c):
    if c["kind"] == "maps":
        alpha = ALPHABET if c["alpha"] == "A" else SMALL
        word = (WORDS if c["word"] == 1 else WORDS2)[c["k"]]
        for rest in itertools.permutations([a for a in alpha if a != c["first"]], c["k"] - 1):
            m = (c["first"],) + rest
            for n in NAMES:
                yield dict(index=n, d=c["d"], word=list(word), labels=[m[w] for w in word])
    elif c["kind"] == "range":
        m = c["m"]
        lab = list(range(-m, m + 1))
        if c["order"] == "down":
            lab.reverse()
        elif c["order"] == "zig":
            lab.sort(key=lambda v: (abs(v), v))
        elif c["order"] == "mod":
            lab = [(v * 37) % (2 * m + 1) - m for v in range(2 * m + 1)]
        yield dict(index=c["index"], d=2, word=list(range(len(lab))) + [0, 7, 3], labels=lab + [lab[0], lab[7], lab[3]])
    elif c["kind"] == "wide":
        w = c["spec"]
        word = C.wide_labels(w["K"], w["n"], w["pat"])
        for n in NAMES:
            for m in ("sparse",) if w["K"] > 200 else ("neg", "sparse") if w["K"] > 20 or w["n"] > 100 else MAPS:
                yield dict(index=n, d=w["d"], word=list(word), labels=[MAPS[m](l, w["K"]) for l in word], wide=w)
    elif c["kind"] == "big":                   # Python integers beyond 64 bits, in a stream
        for m in itertools.permutations((0, 1, 2 ** 64, 2 ** 64 + 1, -2 ** 64, 2 ** 70, 2 ** 61 - 1), 3):
            word = WORDS[3]
            yield dict(index=c["index"], d=2, word=list(word), labels=[m[w] for w in word], stream_only=True)
    else:
        word = (0, 1, 0, 1, 0, 1)
        for kinds in itertools.product(("int", "int64", "int32", "int16"), repeat=6):
            yield dict(index=c["index"], d=2, word=list(word), labels=[(5, -3)[w] for w in word], types=list(kinds))


_memo = {}


def expected(name, d, word, wide=None):
    """Values of the canonical labels 0, 1, 2, ... (in order of appearance), and where the index is defined."""
    key = name, d, tuple(word)
    if key not in _memo:
        if len(_memo) > 200:
            _memo.clear()
        pts = C.wide_points(wide)[0] if wide else space.generic(d, len(word), 1)
        at = C.marks(len(word), 1, k=len(set(word))) if wide else range(1, len(word) + 1)
        X = C.array(pts)
        inc = C.stream_values(name, X, [int(w) for w in word])
        st = model.State(d)
        refs = []
        for i, (p, w) in enumerate(zip(pts, word)):
            st.add(p, w)
            refs.append((0.0, 0.0) if st.k < 2 else model.evaluate(st, name) if i + 1 in at else None)
        _memo[key] = X, inc, C.batch_value(name, X, word), refs
    return _memo[key]


def check(case, rec):
    name, d, word, labels = case["index"], case["d"], case["word"], case["labels"]
    X, inc, bat, refs = expected(name, d, word, case.get("wide"))
    types = case.get("types")
    if types:
        given = [KINDS[t](l) for t, l in zip(types, labels)]
    else:
        given = labels
    rec.state(hash((d, tuple(labels), tuple(types or ()))))
    got = C.stream_values(name, X, given)
    rec.transitions += len(got) + 1
    rec.traces += 2
    for i, (a, b, r) in enumerate(zip(got, inc, refs)):
        if r is None or r[1] == float("inf"):
            rec.undefined += 1
            continue
        rec.checked += 1
        if not near(a, b, r):
            return "%s: labels %r give %r after %d samples, labels %r give %r" % (name, given[:i + 1][:12], a, i + 1, word[:12], b)
    if types or case.get("stream_only"):
        return None
    v = C.scalar(C.new(name).get_cvi(X, np.array(labels)))
    if refs[-1] is not None and refs[-1][1] != float("inf"):
        rec.checked += 1
        rec.outcome(v)
        if not near(v, bat, refs[-1]):
            return "%s batch: labels %r give %r, labels %r give %r" % (name, labels[:12], v, word[:12], bat)
    return None


def near(a, b, r):
    return C.near(a, b, 2 * r[1])


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
