"""Finite spaces of histories."""
import itertools


def rgs(n, kmax=None, prefix=()):
    """All restricted growth strings of length n (canonical label sequences) with at most kmax clusters."""
    kmax = kmax or n
    out = list(prefix)

    def rec(m):
        if len(out) == n:
            yield tuple(out)
            return
        for a in range(min(m + 1, kmax)):
            out.append(a)
            yield from rec(max(m, a + 1))
            out.pop()
    yield from rec(max(prefix) + 1 if prefix else 0)


def _generic(d, n, seed):
    """Fixed integer points in general position (small deterministic generator, no randomness)."""
    x = 12345 + 977 * d + 31337 * seed
    pts = []
    mod = 23 if n <= 12 else 1009
    big = seed >= 100                     # coordinates of 40 significant bits
    while len(pts) < n:
        p = []
        for _ in range(d):
            x = (1103515245 * x + 12345) % (1 << 31)
            if big:
                y = x
                x = (1103515245 * x + 12345) % (1 << 31)
                p.append(((x >> 11) << 20 | y >> 11) - (1 << 39))
                continue
            p.append((x >> 16) % mod - 9 * (mod // 23))
        p = tuple(p)
        if p not in pts:
            pts.append(p)
    return tuple(pts)


def generic(d, n, seed=0):
    return _generic(d, n, seed)


def cloud(d, n, seed=0, spread=41):
    """n fixed integer points, repetitions allowed (small deterministic generator, no randomness)."""
    x = 99991 + 7919 * d + 104729 * seed
    pts = []
    for _ in range(n):
        p = []
        for _ in range(d):
            x = (1103515245 * x + 12345) % (1 << 31)
            p.append((x >> 16) % spread - spread // 3)
        pts.append(tuple(p))
    return tuple(pts)


# small grids (exhaustive point assignments); first entry is the default letter
GRIDS = {
    "1d3": ((0,), (1,), (-3,)),
    "1d4": ((2,), (0,), (3,), (-4,)),
    "2d2": ((0, 0), (2, 1)),
    "2d3": ((1, 0), (0, 2), (-3, 1)),
    "2d4": ((0, 0), (1, 0), (0, 2), (-3, 1)),
    "2dline": ((1, 1), (2, 2), (4, 4)),
    "2doff": ((101, 100), (100, 102), (97, 100)),
    "3d3": ((1, 0, 2), (0, -1, 1), (2, 3, 0)),
    "3d2": ((0, 0, 1), (1, 2, 0)),
    "2dconst": ((0, 5), (1, 5), (4, 5)),
    "2dneg": ((-1, -1), (-2, -1), (-1, -4)),
}


def grid_streams(grid, n, kmax=None, prefix=()):
    """All (points, labels) of length n: every assignment of grid points times every canonical label sequence.

    prefix: tuple of (point index, label) pairs, to split the space."""
    g = GRIDS[grid]
    m = n - len(prefix)
    pp = tuple(g[i] for i, _ in prefix)
    for labels in rgs(n, kmax, tuple(l for _, l in prefix)):
        for idx in itertools.product(range(len(g)), repeat=m):
            yield pp + tuple(g[i] for i in idx), labels


def grid_prefixes(grid, m, kmax=None):
    g = GRIDS[grid]
    for labels in rgs(m, kmax):
        for idx in itertools.product(range(len(g)), repeat=m):
            yield tuple(zip(idx, labels))


def first_owner(points, labels, default):
    """Smallest prefix length owned by this leaf: prefix m is owned iff everything after it is the default letter.

    Each node of the history tree is thereby evaluated for exactly one leaf."""
    m = len(points)
    while m > 1 and labels[m - 1] == 0 and points[m - 1] == default:
        m -= 1
    return m


def first_owner_labels(labels):
    m = len(labels)
    while m > 1 and labels[m - 1] == 0:
        m -= 1
    return m
