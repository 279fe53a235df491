"""Reference model: exact statistics of a labelled multiset of samples, and the published definitions of the indices.

Samples are integer vectors times 2**e.  Counts, coordinate sums and second moments are Python integers, so whether an
index is *defined* (no zero denominator) is decided exactly.  Every quantity that enters a value is a sum of non-negative
terms, each an exact quotient of integers rounded once, so the reference value is accurate to a few ulp; rCIP inverts its
matrices in floating point with a tolerance that follows their condition number.
"""
import math
import numpy as np
from functools import lru_cache

NAMES = ["CH", "WB", "XB", "DB", "PS", "GD43", "GD53", "cSIL", "rCIP"]

RTOL = 1e-9          # relative tolerance of every comparison of values
EPS = 2.0 ** -52
TINY = 1e-280        # values below this are underflow noise (rCIP only)
TOLCAP = 1e-3        # a comparison whose justified tolerance exceeds this is skipped (ill conditioned)


class State:
    """Samples seen so far, per cluster, in order of first appearance of the label."""

    __slots__ = ("d", "e", "cl", "n", "lo", "hi")

    def __init__(self, d, e=0):
        self.d = d
        self.e = e
        self.cl = {}      # label -> [n, s (list of int), Q (upper triangle of sum x x^T, list of int)]
        self.n = 0
        self.lo = self.hi = None

    def add(self, p, label):
        d = self.d
        self.lo = list(map(min, self.lo, p)) if self.n else list(p)
        self.hi = list(map(max, self.hi, p)) if self.n else list(p)
        c = self.cl.get(label)
        if c is None:
            c = self.cl[label] = [0, [0] * d, [0] * (d * (d + 1) // 2)]
        c[0] += 1
        s, q = c[1], c[2]
        t = 0
        for i in range(d):
            a = p[i]
            s[i] += a
            for j in range(i, d):
                q[t] += a * p[j]
                t += 1
        self.n += 1

    def copy(self):
        o = State(self.d, self.e)
        o.cl = {k: [c[0], list(c[1]), list(c[2])] for k, c in self.cl.items()}
        o.n = self.n
        o.lo, o.hi = self.lo, self.hi
        return o

    @property
    def k(self):
        return len(self.cl)

    # -- statistics (unscaled: in grid units) ------------------------------------------------------------------
    def stats(self):
        d = self.d
        diag = []
        t = 0
        for i in range(d):
            diag.append(t)
            t += d - i
        ns, ss, cps = [], [], []
        mag2 = 0.0                       # largest mean squared norm of a cluster: scale of the errors
        for n, s, q in self.cl.values():
            ns.append(n)
            ss.append(s)
            tr = sum(q[t] for t in diag)
            cps.append((n * tr - sum(a * a for a in s)) / n)   # exact int / int, rounded once; 0 iff exactly 0
            mag2 = max(mag2, tr / n)
        ext2 = sum((a - b) ** 2 for a, b in zip(self.hi, self.lo))
        if ext2 and mag2 > 2.0 ** 28 * ext2:
            # data far from the origin: differences are taken before squaring, so one factor only is as large as the data
            mag2 = ext2 + math.sqrt(mag2 * ext2) + 1e-14 * mag2
        return ns, ss, cps, mag2


def _d2(ns, ss, i, j):
    ni, nj = ns[i], ns[j]
    num = 0
    for a, b in zip(ss[i], ss[j]):
        t = nj * a - ni * b
        num += t * t
    return num / (ni * nj) ** 2


def evaluate(state, name):
    """Returns (value, tolerance) or None when the index is not defined in this state (k >= 2 assumed)."""
    if name == "rCIP":
        return _rcip(state)
    ns, ss, cps, mag2 = state.stats()
    err = 1e-12 * mag2                   # absolute error granted to a squared deviation
    k, n = len(ns), state.n
    W = math.fsum(cps)
    if name in ("CH", "WB"):
        S = [sum(s[i] for s in ss) for i in range(state.d)]
        bs = []
        for nj, s in zip(ns, ss):
            num = sum((n * a - nj * b) ** 2 for a, b in zip(s, S))
            bs.append(num / (nj * n * n))
        B = math.fsum(bs)
        if name == "CH":
            if W == 0:
                return None
            f = (n - k) / (k - 1)
            return (B / W) * f, RTOL * (B / W) * f + (1 + B / W) * n * err / W * f
        else:
            if B == 0:
                return None
            return k * W / B, RTOL * k * W / B + (1 + W / B) * k * n * err / B
    if name == "GD53":
        mx = max(c / m for c, m in zip(cps, ns))
        if mx == 0:
            return None
        inter = min((cps[i] + cps[j]) / (ns[i] + ns[j]) for i in range(k) for j in range(i + 1, k))
        v = inter / (2 * mx)
        return v, RTOL * v + (1 + v) * err / mx
    D = {}
    for i in range(k):
        for j in range(i + 1, k):
            D[i, j] = D[j, i] = _d2(ns, ss, i, j)
    if name == "XB":
        m = min(D.values())
        if m == 0:
            return None
        v = W / (n * m)
        return v, RTOL * v + (1 + v) * err / m
    if name == "DB":
        if min(D.values()) == 0:
            return None
        sc = [c / m for c, m in zip(cps, ns)]
        v = math.fsum(max((sc[i] + sc[j]) / D[i, j] for j in range(k) if j != i) for i in range(k)) / k
        return v, RTOL * v + (2 + v) * err / min(D.values())
    if name == "GD43":
        mx = max(c / m for c, m in zip(cps, ns))
        if mx == 0:
            return None
        m = min(D.values())
        v = math.ldexp(math.sqrt(m) / (2 * mx), -state.e)
        # the distance is the root of a squared difference: a large error when centroids coincide, a small one otherwise
        return v, RTOL * v + v * err / mx + math.ldexp((math.sqrt(m + 0.01 * err) - math.sqrt(m)) / (2 * mx), -state.e)
    if name == "PS":
        beta = math.fsum(D[i, j] for i in range(k) for j in range(i + 1, k)) / (k * k)
        if beta == 0:
            return None
        nm = max(ns)
        v = math.fsum(ns[i] / nm - math.exp(-min(D[i, j] for j in range(k) if j != i) / beta) for i in range(k))
        return v, RTOL * max(abs(v), k) + 4 * k * err / beta
    if name == "cSIL":
        a = [c / m for c, m in zip(cps, ns)]
        tot, tol = [], 0.0
        for i in range(k):
            b = min(a[j] + D[i, j] for j in range(k) if j != i)
            m = max(a[i], b)
            if m == 0:
                return None
            tot.append((b - a[i]) / m)
            tol += 4 * err / m / k
        v = math.fsum(tot) / k
        return v, RTOL + tol
    raise KeyError(name)


def defined(state, name):
    return state.k >= 2 and evaluate(state, name) is not None


# -- rCIP --------------------------------------------------------------------------------------------------------
def _rcip(state):
    d, e = state.d, state.e
    cl = [(n, tuple(s), tuple(q)) for n, s, q in state.cl.values()]
    vals, tol = [], 0.0
    far = max(max(map(abs, state.lo)), max(map(abs, state.hi)))
    if far < 2 ** 14 * max(a - b for a, b in zip(state.hi, state.lo)):
        far = 0
    for i in range(len(cl)):
        for j in range(i + 1, len(cl)):
            v, t = _pair(d, e, cl[i], cl[j], far)
            vals.append(v)
            tol += t
    v = math.fsum(vals)
    tol += RTOL * v + TINY
    if tol > TOLCAP * v + TINY:
        return v, math.inf            # defined, but no justified tolerance: not compared
    return v, tol


@lru_cache(maxsize=200000)
def _cov(d, e, c):
    """Unbiased covariance plus the regularisation; each entry an exact quotient of integers rounded once."""
    n, s, q = c
    delta = 10.0 ** (-12.0 / d)
    M = np.zeros((d, d))
    t = 0
    for i in range(d):
        for j in range(i, d):
            if n > 1:
                M[i, j] = M[j, i] = math.ldexp((n * q[t] - s[i] * s[j]) / (n * (n - 1)), 2 * e)
            t += 1
        M[i, i] += delta
    return M


@lru_cache(maxsize=200000)
def _pair(d, e, a, b, far=0):
    """Gaussian overlap of two clusters (far: magnitude of the coordinates, when that dominates the rounding errors).

    Evaluated in floating point after equilibration; the tolerance grants the rounding of both sides, amplified by the
    condition number of the equilibrated matrix."""
    M = _cov(d, e, a) + _cov(d, e, b)
    diff = [math.ldexp((b[0] * x - a[0] * y) / (a[0] * b[0]), e) for x, y in zip(a[1], b[1])]
    dg = [float(M[i, i]) for i in range(d)]
    f = [x / math.sqrt(m) for x, m in zip(diff, dg)]
    ld = math.fsum(math.log(m) for m in dg)
    cond = 1.0
    quad = math.fsum(x * x for x in f)
    E = quad / 2
    if d > 1 and np.count_nonzero(M) > d:
        s = 1 / np.sqrt(np.array(dg))
        N = M * s * s[:, None]
        w = np.linalg.eigvalsh(N)
        lo = max(float(w[0]), 1e-16)
        cond = float(w[-1]) / lo
        quad /= lo
        f = np.array(f)
        E = float(f @ np.linalg.solve(N, f)) / 2
        ld += float(np.linalg.slogdet(N)[1])
    u = 50 * EPS * math.ldexp(far, e) / math.sqrt(min(dg))
    return _bounded(-E - 0.5 * ld - 0.5 * d * math.log(2 * math.pi), cond * (80 * d * EPS + u), quad)


def _bounded(logv, rel, quad):
    """(density, absolute error granted) from its logarithm and the relative errors of determinant and exponent."""
    if not rel <= 1e-4:                 # numerically singular: nothing can be said about what floating point returns
        return (math.exp(logv) if logv > -700 else 0.0), math.inf
    err = rel * (1 + quad)
    v = math.exp(logv) if logv > -740 else 0.0
    hi = math.inf if logv + err > 700 else (math.exp(logv + err) if logv + err > -740 else 0.0)
    return v, hi - v


# -- canonical form ------------------------------------------------------------------------------------------------
@lru_cache(maxsize=100000)
def _pkey(p):
    return hash(tuple(a + 100003 for a in p))      # shifted: hash(-1) == hash(-2)


def canon(d, e, points, labels):
    """Canonical abstract state of a history: per cluster, by first appearance, the sorted multiset of points."""
    g = {}
    for p, l in zip(points, labels):
        g.setdefault(l, []).append(_pkey(p))
    return hash((d, e + 5003, tuple(tuple(sorted(v)) for v in g.values())))
