"""Reference model of the legacy (version 0) indices: plain floats, its own books, nothing shared with the package.

Each model is fed (x, c) and says what the update returns: (value, tolerance), or None where the recursion divides by something that
is zero up to rounding (the value is then noise).  The sums G of the version 0 recursion are identically zero, so they do not occur.
"""
import math

INF = math.inf
EPS = 1e-11            # rounding of quantities of second order, relative to the squared magnitude of the data
EPS1 = 2e-7            # the same for the first-order scatter, whose recursion takes the root of a rounding error


def sq(a, b=None):
    return math.fsum(x * x for x in a) if b is None else math.fsum((x - y) ** 2 for x, y in zip(a, b))


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


class Books:
    def __init__(self):
        self.n, self.sum, self.N, self.mag = [], [], 0, 0.0

    def add(self, x, c):
        """Returns the centre of cluster c before x (None for a new cluster)."""
        old = None
        if c == len(self.n):
            self.n.append(0)
            self.sum.append([0.0] * len(x))
        else:
            old = self.v(c)
        self.n[c] += 1
        self.sum[c] = [a + b for a, b in zip(self.sum[c], x)]
        self.N += 1
        self.mag = max(self.mag, math.sqrt(sq(x)))
        return old

    def v(self, c):
        return [a / self.n[c] for a in self.sum[c]]

    @property
    def K(self):
        return len(self.n)

    def second(self, SS, c, x, old):
        """Sum of squared deviations of cluster c after x."""
        if old is None:
            SS.append(0.0)
        else:
            SS[c] += sq(x, old) * (self.n[c] - 1) / self.n[c]

    def first(self, CP, c, x, old, norm):
        """First-order scatter of version 0: every return adds |x - v_new| + n_old |v_old - v_new|."""
        if old is None:
            CP.append(0.0)
        else:
            CP[c] += 2 * norm([a - b for a, b in zip(x, old)]) * (self.n[c] - 1) / self.n[c]


def ratio(num, enum, den, eden):
    """num/den with its rounding, None when den is zero up to rounding."""
    if not den > 1000 * eden:
        return None
    return num / den, (enum + abs(num / den) * eden) / den


class XB:
    """Compactness over the smallest centre distance ever seen for an updated cluster."""

    def __init__(self):
        self.b, self.SS, self.least = Books(), [], INF

    def update(self, x, c):
        b = self.b
        b.second(self.SS, c, x, b.add(x, c))
        for j in range(b.K):
            if j != c:
                self.least = min(self.least, sq(b.v(c), b.v(j)))
        if self.least == INF:
            return 0.0, 0.0
        return ratio(math.fsum(self.SS) / b.N, EPS * b.mag ** 2, self.least, EPS * b.mag ** 2)


class PS:
    """Each cluster enters with the term it had at its own last update (0 as long as it was the only one)."""

    def __init__(self):
        self.b, self.term = Books(), []

    def update(self, x, c):
        b = self.b
        if b.add(x, c) is None:
            self.term.append((0.0, 0.0))
        K, e = b.K, EPS * b.mag ** 2
        if K > 1:
            v = [b.v(j) for j in range(K)]
            mean = [math.fsum(col) / K for col in zip(*v)]
            r = ratio(min(sq(v[c], v[j]) for j in range(K) if j != c), e, math.fsum(sq(w, mean) for w in v) / K, e)
            self.term[c] = r and (b.n[c] / max(b.n) - math.exp(-r[0]), r[1] + 1e-12)
        else:
            self.term[c] = (0.0, 0.0)
        if None in self.term:
            return None
        return math.fsum(t[0] for t in self.term), math.fsum(t[1] for t in self.term)


class CH:
    """Each cluster's separation is the one at its own last update."""

    def __init__(self):
        self.b, self.SS, self.sep = Books(), [], []

    def update(self, x, c):
        b = self.b
        old = b.add(x, c)
        b.second(self.SS, c, x, old)
        if old is None:
            self.sep.append(0.0)
        mean = [math.fsum(col) / b.N for col in zip(*b.sum)]
        self.sep[c] = b.n[c] * sq(b.v(c), mean)
        if b.K < 2 or b.N <= b.K:
            return 0.0, 0.0
        e = EPS * b.mag ** 2 * b.N
        return ratio(math.fsum(self.sep) / (b.K - 1), e, math.fsum(self.SS) / (b.N - b.K), e)


def norm2(a):
    return math.sqrt(sq(a))


def norm1(a):
    return math.fsum(abs(x) for x in a)


class GD:
    """Refreshed at returns only: least separation of pairs one of which was returned to, over the largest diameter."""

    def __init__(self, t):
        self.t, self.b, self.CP, self.d, self.D, self.out = t, Books(), [], {}, {}, (0.0, 0.0)

    def update(self, x, c):
        b = self.b
        old = b.add(x, c)
        b.first(self.CP, c, x, old, norm2)
        if old is None:
            return self.out
        for j in range(b.K):
            if j != c:
                k = (min(c, j), max(c, j))
                self.d[k] = sq(b.v(c), b.v(j)) if self.t == 43 else (self.CP[c] + self.CP[j]) / (b.n[c] + b.n[j])
        self.D[c] = 2 * self.CP[c] / b.n[c]
        e1 = EPS1 * b.mag
        least, most = min(self.d.values(), default=INF), max(self.D.values())
        if least == INF:
            self.out = (INF, 0.0) if most > 1000 * e1 else None
        else:
            self.out = ratio(least, EPS * b.mag ** 2 if self.t == 43 else e1, most, e1)
        return self.out


class DB:
    """Refreshed at returns only, one cluster at a time; the separation is the city-block distance of the centres."""

    def __init__(self):
        self.b, self.CP, self.S, self.R, self.out = Books(), [], [], [], (0.0, 0.0)

    def update(self, x, c):
        b = self.b
        old = b.add(x, c)
        b.first(self.CP, c, x, old, norm1)
        if old is None:
            self.S.append(0.0)
            self.R.append((0.0, 0.0))
            return self.out
        e = EPS1 * b.mag * len(x)
        self.S[c] = self.CP[c] / b.n[c]
        top = (0.0, 0.0)
        for j in range(b.K):
            if j != c:
                r = ratio(self.S[c] + self.S[j], 2 * e, norm1([p - q for p, q in zip(b.v(c), b.v(j))]), EPS * b.mag * len(x))
                if r is None:
                    top = None
                    break
                top = (max(top[0], r[0]), max(top[1], r[1]))
        self.R[c] = top
        self.out = None if None in self.R else (math.fsum(r[0] for r in self.R) / b.K, math.fsum(r[1] for r in self.R) / b.K)
        return self.out


class SIL:
    """Dissimilarities s[i][j] of the points of j to the centre of i, and the coefficients with respect to the updated cluster."""

    def __init__(self):
        self.b, self.CP, self.s, self.out = Books(), [], [], (0.0, 0.0)

    def update(self, x, c):
        b = self.b
        was = [list(s) for s in b.sum]
        if b.add(x, c) is None:
            self.CP.append(0.0)
            was.append([0.0] * len(x))
            for row in self.s:
                row.append(0.0)
            self.s.append([0.0] * b.K)
        K = b.K
        vc = b.v(c)
        for i in range(K):
            if i != c:
                v = b.v(i)
                self.s[i][c] = (self.CP[c] + sq(x, v) + b.n[c] * sq(v) - 2 * dot(v, was[c])) / b.n[c]
            elif b.n[c] > 0:
                for j in range(K):
                    if j != c:
                        self.s[c][j] = (self.CP[j] + b.n[j] * sq(vc) - 2 * dot(vc, was[j])) / b.n[j]
                self.s[c][c] = (self.CP[c] + sq(x, vc) + (b.n[c] - 1) * sq(vc) - 2 * dot(vc, was[c])) / b.n[c]
        self.CP[c] += sq(x)
        if K < 2:
            return self.out
        e = EPS * b.mag ** 2
        total, tol = [], 0.0
        for i in range(K):
            others = [self.s[i][j] for j in range(K) if j != c]
            r = ratio(min(others) - self.s[i][c], 2 * e, max(others + [self.s[i][c]]), e)
            if r is None:
                self.out = None
                return None
            total.append(r[0])
            tol += r[1]
        self.out = (math.fsum(total) / K, tol / K)
        return self.out


MODELS = {"iXB": XB, "iPS": PS, "iCH": CH, "iGD43": lambda: GD(43), "iGD53": lambda: GD(53), "iDB": DB, "iSIL": SIL}
