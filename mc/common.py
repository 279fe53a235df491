"""Shared pieces: families of histories, execution on the real code, comparison with the reference model."""
import itertools
import math

from . import model, space
from .target import np, new, from_target, NAMES


def names_for(e):
    """rCIP regularises with an absolute term: data of magnitude 1e10 is singular in double precision."""
    return [n for n in NAMES if not (n == "rCIP" and e > 10)]


# -- executing -----------------------------------------------------------------------------------------------------
def array(points, e=0):
    return np.array(points, dtype=float) * (2.0 ** e)


def scalar(v):
    """A reported value as a Python float (NaN for anything that is not one number)."""
    try:
        return float(v)
    except Exception:
        return math.nan


def stream_values(name, X, labels):
    o = new(name)
    return [scalar(o.get_cvi(X[i].copy(), labels[i])) for i in range(len(labels))]


def batch_value(name, X, labels):
    return scalar(new(name).get_cvi(X, np.array(labels)))


def close(v, ref):
    """Is a reported value the reference value (value, tolerance)?"""
    return abs(v - ref[0]) <= ref[1]


def same(a, b):
    """Two runs of the same calculation: identical, or equal up to last-digit noise."""
    if a == b or (a != a and b != b):
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-290


def near(a, b, tol):
    """Two values of the code that should agree where the index is defined, tol being the rounding granted to both."""
    if a == b or (a != a and b != b):
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol + model.RTOL * abs(b)


def exception_text(e):
    return "raised %s: %s" % (type(e).__name__, e)


def guarded(fn, *a):
    """Runs fn; an exception becomes a failure message.

    The cases run without any exception on code that behaves, so one that surfaces outside the code under test (pickle refusing an
    attribute, an array of an unexpected shape coming back) is caused by it just as well.
    """
    try:
        return fn(*a)
    except Exception as e:
        if isinstance(e, Interrupted):
            raise
        return exception_text(e) + ("" if from_target(e) else " (%s)" % place(e))


class Interrupted(Exception):
    """Raised by the engine's alarm."""


def place(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "in %s, line %d" % (tb.tb_frame.f_code.co_filename.rsplit("/", 1)[-1], tb.tb_lineno)


def build(d, e, points, labels, upto=None):
    st = model.State(d, e)
    for p, l in list(zip(points, labels))[:upto]:
        st.add(p, l)
    return st


def tup(points):
    return tuple(tuple(p) for p in points)


# -- families ------------------------------------------------------------------------------------------------------
ODD = {1: (1, 0, 2, 3, 4, 5, 6, 7, 8), 2: (7, -3, 5, 0, -100, 2 ** 40, 1, -1, 3), 3: (-1, 0, 1, 2, 3, 4, 5, 6, 7),
       4: (2 ** 32, 0, 2 ** 32 + 1, 1, -2 ** 32, 256, 255, -256, 2)}


def E1(d, n, seed=0, e=0, off=0, kmax=None, split=None, lab=0):
    """Every canonical label sequence of length n over n fixed points in general position, under label map number lab."""
    split = split if split is not None else max(1, min(4, n - 3))
    return [dict(fam="E1", d=d, n=n, seed=seed, e=e, off=off, kmax=kmax, lab=lab, prefix=list(p)) for p in space.rgs(split, kmax)]


def extra_E1(n):
    """Other label values, and coordinates that need all the bits of a double."""
    out = []
    for lab in ODD:
        out += E1(2, n, 7, lab=lab)
    for d in (1, 2, 3):
        out += E1(d, n, 100 + d, e=-40)
    return out + E1(2, n, 107, e=-40, lab=2)


def E2(grid, n, e=0, kmax=None, split=None):
    """Every assignment of grid points times every canonical label sequence of length n."""
    split = split if split is not None else max(1, min(2, n - 2))
    return [dict(fam="E2", grid=grid, n=n, e=e, kmax=kmax, prefix=[list(x) for x in p])
            for p in space.grid_prefixes(grid, split, kmax)]


def FK(d, K, e=0):
    """K clusters opened one after the other, then one return to each cluster r (every r)."""
    return [dict(fam="K", d=d, K=K, e=e, r=r) for r in range(K)]


def FS(d, sizes, order, e=0, seed=0):
    """A batch with the given cluster sizes, rows in blocks ('block'), round robin ('robin') or reversed blocks ('back')."""
    return [dict(fam="S", d=d, sizes=list(sizes), order=order, e=e, seed=seed)]


def ladder(n, step=3, top=60):
    """Absolute scales from 2^-60 to 2^60: every threshold on absolute magnitudes is crossed by some of the distances."""
    return [c for e in range(-top, top + 1, step) for c in E1(1 + (e // step) % 2, n, 4, e=e, split=1)]


def nested(d, kmax):
    """Concentric clusters: pairs of opposite points at every multiset of radii (one of them may be the common centre itself)."""
    return [dict(fam="N", d=d, radii=list(r)) for k in range(2, kmax + 1) for r in itertools.combinations_with_replacement((0, 1, 2, 5, 50), k)]


def size_labels(sizes, order):
    if order == "robin":
        left, out = list(sizes), []
        while any(left):
            for i in range(len(left)):
                if left[i]:
                    left[i] -= 1
                    out.append(i)
        return tuple(out)
    blocks = [(i,) * m for i, m in enumerate(sizes)]
    if order == "back":
        blocks.reverse()
    return tuple(x for b in blocks for x in b)


def expand(c):
    """Yields (d, e, points, labels, m0): a leaf history, and the shortest prefix it owns (each node owned once)."""
    f = c["fam"]
    if f == "E1":
        off = c["off"]
        pts = space.generic(c["d"], c["n"], c["seed"])
        if off:
            pts = tuple(tuple(a + off * (1 if i % 2 else -1) for i, a in enumerate(p)) for p in pts)
        odd = ODD.get(c.get("lab"))
        for labels in space.rgs(c["n"], c["kmax"], tuple(c["prefix"])):
            yield c["d"], c["e"], pts, tuple(odd[l] for l in labels) if odd else labels, space.first_owner_labels(labels)
    elif f == "E2":
        g = space.GRIDS[c["grid"]]
        for pts, labels in space.grid_streams(c["grid"], c["n"], c["kmax"], tuple(tuple(x) for x in c["prefix"])):
            yield len(g[0]), c["e"], pts, labels, space.first_owner(pts, labels, g[0])
    elif f == "K":
        K, r = c["K"], c["r"]
        pts = space.generic(c["d"], K + 2, 3)
        labels = tuple(range(K)) + (r, (r + 1) % K)
        yield c["d"], c["e"], pts, labels, K + 1 if r else 2
    elif f == "N":
        d, k = c["d"], len(c["radii"])
        pts, labels = [], []
        for s in (1, -1):
            for i, r in enumerate(c["radii"]):
                pts.append(tuple(3 + (s * r if j == i % d else 0) for j in range(d)))
                labels.append(i)
        yield d, c.get("e", 0), tuple(pts), tuple(labels), k + 1
    elif f == "W":
        pts, labels = wide_points(c)
        yield c["d"], c.get("e", 0), pts, labels, c["K"] if c["pat"] == "pairs" else 2
    elif f == "S":
        labels = size_labels(c["sizes"], c["order"])
        pts = space.cloud(c["d"], len(labels), c["seed"])
        # spread the clusters apart a little, differently per cluster
        pts = tuple(tuple(a + 9 * (l % 5) * (1 + (i + l) % 3) for i, a in enumerate(p)) for p, l in zip(pts, labels))
        yield c["d"], c["e"], pts, labels, len(labels)
    else:
        raise KeyError(f)


# -- wide family: many features, many clusters, long streams, late returns ------------------------------------------------
WIDE_D = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65, 100, 128, 200, 257, 300)
WIDE_K = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 25, 31, 32, 33, 50, 64, 65, 101, 128, 129, 200, 257, 300)


def wide(dmax=300, kmax=300, nmax=1100, many=False):
    """Specifications (d, K, n, pattern): every feature count and every cluster count of the lists above, and long streams."""
    out = []
    for d in WIDE_D:
        out += [dict(fam="W", d=d, K=3, n=14 if d < 129 else 8, pat=p) for p in ("robin", "return")]
    for K in WIDE_K:
        if K > 20:
            out += [dict(fam="W", d=1 + K % 2, K=K, n=K + 12, pat=p) for p in ("few", "late")]
        if K > 129:
            continue
        out += [dict(fam="W", d=2 if K % 2 else 3, K=K, n=2 * K + 3, pat=p) for p in ("robin", "return", "pairs")[:3 if K < 60 else 1 + K % 2]]
    for d, K, n in ((10, 10, 40), (20, 20, 50), (4, 33, 80), (33, 5, 40), (1, 40, 90), (16, 16, 40), (64, 4, 20)):
        out.append(dict(fam="W", d=d, K=K, n=n, pat="robin"))
    for d, K, n in ((2, 2, 140), (1, 3, 140), (3, 4, 270), (2, 3, 530), (5, 5, 300), (2, 6, 1100)):
        out += [dict(fam="W", d=d, K=K, n=n, pat=p) for p in ("robin", "block", "return", "skew")]
    out += [dict(fam="W", d=2, K=K, n=n, pat="tail") for K, n in ((3, 130), (9, 200), (34, 300), (40, 160), (70, 300))]
    out = [w for w in out if w["d"] <= dmax and w["K"] <= kmax and w["n"] <= nmax]
    if dmax < 257:
        out.append(dict(fam="W", d=257, K=3, n=8, pat="robin"))
    if many and kmax < 260:
        out.append(dict(fam="W", d=2, K=260, n=272, pat="few"))
    return out


def wide_labels(K, n, pat):
    if pat == "robin":
        return tuple(i % K for i in range(n))
    if pat == "block":                    # clusters one after the other
        return tuple(min(i * K // n, K - 1) for i in range(n))
    if pat == "pairs":                    # two samples per cluster, then once more in reverse
        w = [i // 2 for i in range(2 * K)] + list(range(K))[::-1]
        return tuple(w[:n])
    if pat in ("few", "late"):            # all clusters opened, then an early (late) one grows and a few others are revisited
        a = 0 if pat == "few" else K - 1
        return tuple((list(range(K)) + [a, a, 1, K // 2, a, K - 2, K - 1, a, 0, K // 3, a, 2])[:n])
    if pat == "return":                   # all clusters opened, a long stay in the last one, return to the old ones
        w = list(range(K)) + [K - 1] * max(1, n - 2 * K) + list(range(K))
        return tuple((w + [0] * n)[:n])
    if pat == "tail":                     # all clusters opened, then only the last one grows
        return tuple(min(i, K - 1) for i in range(n))
    return tuple(i if i < K else (0 if i % 7 else 1 + (i // 7) % (K - 1)) for i in range(n))     # skew


def wide_points(c):
    labels = wide_labels(c["K"], c["n"], c["pat"])
    pts = space.cloud(c["d"], len(labels), 8, spread=31)
    if c["K"] > 20:                       # clusters that never coincide, neighbours in the order of arrival far apart
        s = next(s for s in (7, 11, 13, 17, 19, 23) if c["K"] % s)
        pts = tuple(tuple(a + (37 * (l * s % c["K"]) if i == 0 else 0) for i, a in enumerate(p)) for p, l in zip(pts, labels))
        return pts, labels
    return tuple(tuple(a + 5 * ((l * (3 + i % 4) + i * l // 3) % 29) for i, a in enumerate(p)) for p, l in zip(pts, labels)), labels


def marks(n, first=2, k=1, every=False):
    """Prefix lengths at which a long stream is examined: all up to 40, around powers of two and hundreds, and the end."""
    if k > 40:                            # many clusters: around the opening of the last ones, around powers of two, the end
        at = {2, 3, 8, 20, 33, 34, 64, 65, 66, 100, k - 1, k, k + 1, k + 2, k + 4, k + 8, n // 2 + k // 2, 2 * k - 1, 2 * k, n - 1, n}
        return sorted(m for m in at if first <= m <= n)
    out = set(range(first, min(n, 40) + 1)) | {n, n - 1}
    if every and n <= 600:
        return list(range(first, n + 1))
    for a in [1 << j for j in range(6, 20)] + list(range(50, n, 50 if n < 600 else 250)):
        out |= {a - 1, a, a + 1}
    return sorted(m for m in out if first <= m <= n)


def describe(name, d, e, pts, labels):
    return dict(index=name, d=d, e=e, points=[list(p) for p in pts], labels=list(labels))


# -- driving -------------------------------------------------------------------------------------------------------
class Null:
    """Stands in for the recorder when a single case is replayed."""

    transitions = traces = checked = undefined = ill = 0

    def state(self, key): pass
    def outcome(self, v): pass
    def count(self, key, n=1): pass
    def sample(self, s): pass


def drive(cases, check, rec):
    """Checks every case of a chunk; stops at the first failure."""
    for case in cases:
        msg = guarded(check, case, rec)
        if msg:
            rec.fail(case, msg)
            return
        rec.sample(case)


def replay(check):
    return lambda case: guarded(check, case, Null())


def bundle(items, size):
    """Splits a list of small cases into chunks, interleaved so that chunks are alike."""
    items = list(items)
    k = max(1, (len(items) + size - 1) // size)
    return [dict(cases=items[i::k]) for i in range(k)]


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)
