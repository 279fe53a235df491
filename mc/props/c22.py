"""C22: incremental accuracy does not degrade over long streams."""
import itertools

from .. import common as C
from .. import model, space
from ..target import NAMES, np

ID = "C22"
BOUNDS = {
    "quick": "all periodic label words of period <= 3 over 3 clusters, 2500 samples in 2 features; period <= 2 with 4 data patterns "
             "(cloud, offset 50, drifting, outliers) in 1 and 3 features, 1200 samples; block words (m samples per cluster in turn, m=100, 1000) 6000 samples; 70000 "
             "samples for 3 words per index (one with a single cluster of 70000); 6000 samples with 1 in 401 in a second cluster; 8 and 20 clusters; "
             "1000 samples with one extreme sample (50 times beyond all before) in 307; 5, 8, 16 features; exact oracle at every sample of the streams below 10000; of the longer ones at every sample up to 150, around every power of two, every 97th and every 1000th sample and at the end",
    "thorough": "as quick with 20000 samples for the words, 6000 for the patterns and 400000 for 2 words",
}
ASSUMPTIONS = ["inputs are integers of magnitude comparable to their spread; relative tolerance 1e-9 per 50000 samples (and the conditioning of the case)"]
CENTRES = {1: ((0,), (40,), (-30,), (90,)), 2: ((0, 0), (40, 5), (-30, 22), (8, -60)), 3: ((0, 0, 0), (40, 5, 9), (-30, 22, 1), (8, -60, 7))}


def chunks(tier):
    t = tier == "thorough"
    words = [w for n in (1, 2, 3) for w in itertools.product(range(3), repeat=n)]
    out = []
    for name in NAMES:
        out += C.bundle([dict(index=name, d=2, word=list(w), pattern="cloud", n=20000 if t else 2500) for w in words], 8)
        out += C.bundle([dict(index=name, d=d, word=list(w), pattern=p, n=6000 if t else 1200)
                         for d in (1, 3) for w in words if len(w) < 3 for p in ("cloud", "offset", "drift", "outlier")], 16)
        out += C.bundle([dict(index=name, d=2, block=m, word=[0, 1, 2, 3], pattern=p, n=6000) for m in (100, 1000)
                         for p in ("cloud", "outlier")], 2)
        for w in ((0, 1), (2, 0, 1, 0)):
            out.append(dict(cases=[dict(index=name, d=2, word=list(w), pattern="cloud", n=400000 if t else 70000)]))
        # a cluster of more than 65536 samples, more clusters, more features, one tiny cluster next to a huge one
        out.append(dict(cases=[dict(index=name, d=1, word=[0], pattern="cloud", n=140000 if t else 70000)]))
        out.append(dict(cases=[dict(index=name, d=2, word=[0] * 400 + [1], pattern="outlier", n=20000 if t else 6000)]))
        out.append(dict(cases=[dict(index=name, d=2, k=8, word=list(range(8)), pattern="cloud", n=5000 if t else 2500)]))
        out.append(dict(cases=[dict(index=name, d=2, k=20, word=[(i * i) % 20 for i in range(40)], pattern="cloud", n=1500)]))
        for w in ((0, 1), (0, 0, 0, 1)):
            out.append(dict(cases=[dict(index=name, d=d, word=list(w), pattern="rare", n=1000) for d in (1, 2)]))
        for d in (5, 8, 16):
            out.append(dict(cases=[dict(index=name, d=d, word=[0, 1, 2, 1], pattern="cloud", n=3000 if t else 1100)]))
    out.sort(key=lambda c: -max(x["n"] for x in c["cases"]))
    return out


def centre(d, l):
    if d in CENTRES and l < 4:
        return CENTRES[d][l]
    return tuple(((l * (7 + j) + j * j) % 31) * 5 - 70 for j in range(d))


def check(case, rec):
    name, d, word, n, pat = case["index"], case["d"], case["word"], case["n"], case["pattern"]
    k = 4 if "block" in case else case.get("k", 3)
    cloud = space.cloud(d, 251, 6, spread=23)
    st = model.State(d, 0)
    o = C.new(name)
    pw = {1 << j for j in range(7, 20)}
    for i in range(n):
        if "block" in case:
            l = word[(i // case["block"]) % len(word)]
        else:
            l = i if i < k else word[i % len(word)]
        p = [a + b for a, b in zip(centre(d, l), cloud[(i * 7 + l) % 251])]
        if pat == "offset":
            p = [a + 50 for a in p]
        elif pat == "drift":
            p = [a + i // 64 for a in p]
        elif pat == "rare" and i % 307 == 300:      # each extreme sample dwarfs all before it
            p = [a + 3 * 50 ** (1 + i // 307) for a in p]
        elif pat == "outlier" and i % 101 == 17:
            p = [a * 9 for a in p]
        st.add(p, l)
        v = o.get_cvi(np.array(p, dtype=float), l)
        m = i + 1
        if n < 10000 or m <= 150 or m % 97 == 0 or m % 1000 == 0 or m == n or m in pw or m - 1 in pw or m + 1 in pw:
            v = C.scalar(v)
            if st.k < 2:
                continue
            r = model.evaluate(st, name)
            if r is None or r[1] == float("inf"):
                rec.undefined += 1
                continue
            rec.checked += 1
            rec.outcome(v)
            if not abs(v - r[0]) <= max(r[1], 1e-9 * max(1, m / 50000) * abs(r[0])):
                return "%s after %d samples (label word %r, %s data, %d features): reported %r, exact %r" % (
                    name, m, word, pat, d, v, r[0])
    rec.transitions += n
    rec.traces += 1
    rec.state(hash((d, tuple(word), pat, n, case.get("block"))))
    return None


def run(chunk, rec):
    C.drive(chunk["cases"], check, rec)


check_case = C.replay(check)
