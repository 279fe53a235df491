"""C11: objects are independent of one another."""
import itertools
import multiprocessing as mp
import os

from .. import common as C
from .. import space
from ..target import NAMES, np

ID = "C11"
BOUNDS = {
    "quick": "all interleavings of the calls (construction included) of two objects: 81 ordered index pairs x 3 role pairs, same "
             "index x all 100 role pairs; of three objects of the same index; roles: streams and batches with the same labels, shapes and "
             "buffers but different data, with the same data but different labels, with other feature counts, and refused calls; up to six objects used "
             "one after the other, earlier ones kept or discarded at every point of their use; streams and batches in 1..40 features with 2..17 "
             "clusters: every interleaving with at most one preemption, with two at every pair of positions (every third pair for long streams), and the strict alternation (same index), one after the other and alternating (all pairs); every stream and batch of 4 samples over four grids executed one after "
             "the other, in four orders",
    "thorough": "as quick with all 100 role pairs for all 81 index pairs and three objects of different indices",
}
ASSUMPTIONS = ["objects are used from one thread (threads: C12)",
               "values of an object used alone are taken from a pristine forked process per role"]
BUF = np.zeros((4, 2))
BUFL = np.zeros(4, dtype=int)
BUFS = np.zeros(2)
P = [list(map(float, p)) for p in space.generic(2, 12, 0)]
Q = [list(map(float, p)) for p in space.generic(2, 12, 5)]
T = [list(map(float, p)) for p in space.generic(3, 12, 1)]
S = ("stream",)
ROLES = {
    "sA": [("s", P[i], l) for i, l in enumerate((0, 1, 0, 1))],
    "sB": [("s", Q[i], l) for i, l in enumerate((0, 1, 0, 1))],
    "sC": [("s", P[i], l) for i, l in enumerate((0, 0, 1, 1))],
    "s3": [("s", T[i], l) for i, l in enumerate((0, 1, 2, 1))],
    "tA": [("t", P[i], l) for i, l in enumerate((0, 1, 0, 1))],
    "tB": [("t", Q[i], l) for i, l in enumerate((0, 1, 2, 0))],
    "bA": [("b", P[0:4], [0, 1, 0, 1])],
    "bB": [("b", Q[0:4], [0, 1, 0, 1])],
    "bC": [("b", P[0:4], [0, 0, 1, 1])],
    "rj": [("b", P[0:4], [2, 2, 2, 2]), ("s", Q[3], 5), ("s", Q[4], 6), ("s", T[0], 5)],
}
# larger roles: d features, k clusters, 2k+2 samples as a stream or 4k+3 rows as a batch; "A" and "B" differ in the data,
# "C" has the data of "A" and other labels
WIDE = ((1, 3), (3, 5), (5, 2), (9, 4), (20, 3), (40, 2), (2, 10), (4, 17))
LARGE = {}
for _d, _k in WIDE:
    for _w in "ABC":
        _p = [list(map(float, p)) for p in space.cloud(_d, 4 * _k + 3, 3 if _w == "B" else 1)]
        _l = [i % _k if i < _k else (i * (3 if _w == "C" else 1) + i // _k) % _k for i in range(4 * _k + 3)]
        LARGE["W%d.%d%s" % (_d, _k, _w)] = [("s", p, l) for p, l in zip(_p, _l)][:2 * _k + 2]
        LARGE["V%d.%d%s" % (_d, _k, _w)] = [("c", _p, _l)]
SMALL = {"sA": ROLES["sA"][1:3], "sB": ROLES["sB"][1:3], "bA": ROLES["bA"], "bB": ROLES["bB"], "s3": ROLES["s3"][:2]}


def execute(o, op):
    kind, x, l = op
    try:
        if kind == "s":
            return C.scalar(o.get_cvi(np.array(x), l))
        if kind == "t":                # one reused buffer for all samples
            BUFS[:] = x
            return C.scalar(o.get_cvi(BUFS, l))
        if kind == "c":
            return C.scalar(o.get_cvi(np.array(x), np.array(l)))
        if kind == "b":                # one reused pair of buffers for all batches
            BUF[:] = x
            BUFL[:] = l
            return C.scalar(o.get_cvi(BUF, BUFL))
    except ValueError:
        return "refused"
    except Exception as e:
        if isinstance(e, C.Interrupted):
            raise
        return "raised %s" % type(e).__name__


def solo(job):
    name, ops = job
    o = C.new(name)
    return [0.0] + [v for op in ops for v in (execute(o, op), C.scalar(o.criterion_value))]


def _in_child(jobs):
    """Each job in its own forked process, so that nothing an earlier job left behind can reach it."""
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        return pool.map(solo, jobs, chunksize=1)


def chunks(tier):
    t = tier == "thorough"
    jobs = [(n, r, False) for n in NAMES for r in list(ROLES) + list(LARGE)] + [(n, r, True) for n in NAMES for r in SMALL]
    vals = _in_child([(n, SMALL[r] if s else ops_of(r)) for n, r, s in jobs])
    alone = {"%s/%s/%d" % (n, r, s): v for (n, r, s), v in zip(jobs, vals)}
    out = []

    def add(names, roles, small=False):
        out.append(dict(names=list(names), roles=list(roles), small=small,
                        alone=[alone["%s/%s/%d" % (n, r, small)] for n, r in zip(names, roles)]))
    every = list(itertools.product(ROLES, repeat=2))
    for a in NAMES:
        for b in NAMES:
            for ra, rb in every if (a == b or t) else (("sA", "sB"), ("bA", "sA"), ("bA", "bB")):
                add((a, b), (ra, rb))
        for roles in (("sA", "sB", "sA"), ("bA", "bB", "sB"), ("sA", "s3", "bA"), ("bB", "s3", "bA")):
            add((a, a, a), roles, True)
            if t:
                for b, c in itertools.product(NAMES[::2], NAMES[1::3]):
                    add((a, b, c), roles, True)
    # one object after the other, the earlier one discarded first (its address is likely to be reused) or kept
    for a in NAMES:
        for b in NAMES:
            for ra, rb in every if a == b else (("sA", "sB"), ("bA", "sA"), ("bA", "bB"), ("sB", "bC"), ("rj", "sC")):
                add((a, b), (ra, rb))
                out[-1]["life"] = True
    for a in NAMES:
        for d, k in WIDE:
            key = "%d.%d" % (d, k)
            for x, y in (("WA", "WB"), ("WA", "WC"), ("VA", "VB"), ("VA", "VC"), ("WA", "VB"), ("VA", "WC")):
                add((a, a), (x[0] + key + x[1], y[0] + key + y[1]))
                out[-1]["switches"] = 2
                if x[0] == y[0] and x + y != "WAWC":
                    for b in NAMES:
                        if b != a:
                            add((a, b), (x[0] + key + x[1], y[0] + key + y[1]))
                            out[-1]["switches"] = 0
    cum = [dict(kind="cum", index=a, grid=g, n=n) for a in NAMES for g, n in (("1d3", 4), ("2d3", 4), ("3d2", 4), ("2dline", 4))]
    return cum + C.bundle(out, 12)


class Zygote:
    """A process forked before any index was used; it runs every list of jobs in a child of its own."""

    def __init__(self):
        a, b = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            a.close()
            try:
                while True:
                    b.send([self.child(jobs) for jobs in b.recv()])
            finally:
                os._exit(0)
        b.close()
        self.end = a

    @staticmethod
    def child(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with os.fdopen(w, "w") as f:
                    f.write(repr([history(*j) for j in jobs]))
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            data += part
        os.close(r)
        os.waitpid(pid, 0)
        return data.decode()

    def ask(self, jobs):
        self.end.send(jobs)
        return self.end.recv()


_zygote = []


def history(name, pts, labels, batch):
    try:
        o = C.new(name)
        X = C.array(pts)
        if batch:
            return [C.scalar(o.get_cvi(X, np.array(labels))), C.scalar(o.criterion_value)]
        return [C.scalar(o.get_cvi(X[i], labels[i])) for i in range(len(labels))] + [C.scalar(o.criterion_value)]
    except Exception as e:
        return ["raised %s" % type(e).__name__]


def cumulative(chunk, rec):
    """Every history of a grid executed one after the other in one process, in four orders (each order in a process of its own)."""
    jobs = []
    for pts, labels in space.grid_streams(chunk["grid"], chunk["n"]):
        jobs.append((chunk["index"], pts, labels, False))
        if max(labels):
            jobs.append((chunk["index"], pts, labels, True))
    n = len(jobs)
    first = sorted(range(0, n, max(1, n // 20)))          # these alone
    orders = [[i] for i in first] + [list(range(n)), list(range(n))[::-1], [x for s in range(7) for x in range(s, n, 7)],
                                     [x for s in range(31) for x in range(n - 1 - s, -1, -31)]]
    alone = [None] * n
    for order, text in zip(orders, _zygote[0].ask([[jobs[i] for i in o] for o in orders])):
        for i, got in zip(order, eval(text, {"nan": float("nan"), "inf": float("inf")})):
            if alone[i] is None:
                alone[i] = got
            rec.transitions += len(got)
            rec.checked += len(got)
            rec.traces += 1
            if len(got) != len(alone[i]) or not all(equal(a, b) for a, b in zip(got, alone[i])):
                rec.fail(dict(chunk=chunk), "%s %s on %r, %r after other objects were used and discarded: %r, after other such objects, or alone, %r" % (
                    jobs[i][0], "batch" if jobs[i][3] else "stream", jobs[i][1], jobs[i][2], got, alone[i]))
                return
            rec.state(hash(("cum",) + jobs[i]))


def ops_of(role):
    return LARGE[role] if role in LARGE else ROLES[role]


def few_switches(na, nb, most):
    """All interleavings of two sequences with at most that many preemptions of either, and the strict alternation."""
    yield tuple(x for i in range(max(na, nb)) for x in ([0] if i < na else []) + ([1] if i < nb else []))
    for first, (n, m) in ((0, (na, nb)), (1, (nb, na))):
        other = 1 - first
        yield (first,) * n + (other,) * m
        if most:
            for i in range(1, n):
                yield (first,) * i + (other,) * m + (first,) * (n - i)
                for j in range(1, m):
                    if most > 1 and (n * m <= 200 or (i + j) % 3 == 0):
                        yield (first,) * i + (other,) * j + (first,) * (n - i) + (other,) * (m - j)


def schedules(lens):
    """All interleavings of sequences of the given lengths, as tuples of object numbers."""
    cur = []
    left = list(lens)

    def rec():
        if not any(left):
            yield tuple(cur)
            return
        for i in range(len(left)):
            if left[i]:
                left[i] -= 1
                cur.append(i)
                yield from rec()
                cur.pop()
                left[i] += 1
    yield from rec()


def cases(c):
    for part in c["cases"]:
        table = SMALL if part["small"] else ROLES
        if part.get("life"):
            for keep in (0, 1):
                for upto in range(len(table[part["roles"][0]]) + 1):
                    yield dict(part, keep=keep, upto=upto)
            continue
        if "switches" in part:
            for sch in few_switches(*[1 + len(ops_of(r)) for r in part["roles"]], part["switches"]):
                yield dict(part, schedule=list(sch))
            continue
        for sch in schedules([1 + len(table[r]) for r in part["roles"]]):
            yield dict(part, schedule=list(sch))


def life(case, rec):
    kept = []
    o = None
    for rep in range(3):
        for i in (0, 1):
            name, role = case["names"][i], case["roles"][i]
            o = None
            o = C.new(name)
            rec.transitions += 1
            rec.checked += 1
            if not equal(C.scalar(o.criterion_value), 0.0):
                return "a new %s already reports %r" % (name, o.criterion_value)
            for j, op in enumerate(ROLES[role][:None if i else case["upto"]]):
                v = execute(o, op)
                rec.transitions += 1
                rec.checked += 1
                if not equal(v, case["alone"][i][1 + 2 * j]):
                    return "%s (%s) created after %s: call %d gives %r, alone %r" % (
                        name, role, case["names"][1 - i], j + 1, v, case["alone"][i][1 + 2 * j])
            if case["keep"]:
                kept.append(o)
    rec.traces += 6
    rec.state(hash(("life", tuple(case["names"]), tuple(case["roles"]), case["keep"], case["upto"])))
    return None


def check(case, rec):
    if "upto" in case:
        return life(case, rec)
    table = SMALL if case["small"] else ROLES
    names, roles = case["names"], case["roles"]
    objs = [None] * len(names)
    pos = [0] * len(names)
    for step, i in enumerate(case["schedule"]):
        rec.transitions += 1
        if objs[i] is None:
            objs[i] = C.new(names[i])
            if not equal(C.scalar(objs[i].criterion_value), 0.0):
                return "a new %s already reports %r after %r" % (names[i], objs[i].criterion_value, show(case, step))
            continue
        v = execute(objs[i], (table[roles[i]] if roles[i] in table else LARGE[roles[i]])[pos[i]])
        want = case["alone"][i][1 + 2 * pos[i]]
        pos[i] += 1
        rec.checked += 1
        if not equal(v, want):
            return "%s object %d (%s): call %d gives %r, alone %r; other objects: %s; schedule %r" % (
                names[i], i, roles[i], pos[i], v, want, list(zip(names, roles)), case["schedule"][:step + 1])
    for i, o in enumerate(objs):
        v, want = C.scalar(o.criterion_value), case["alone"][i][-1]
        rec.checked += 1
        if not equal(v, want):
            return "%s object %d (%s) reports %r in the end, alone %r; schedule %r" % (
                names[i], i, roles[i], v, want, case["schedule"])
    rec.traces += 1
    rec.state(hash((tuple(names), tuple(roles), tuple(case["schedule"]))))
    return None


def show(case, step):
    return [case["names"][i] for i in case["schedule"][:step]]


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return C.same(a, b)


def run(chunk, rec):
    if not _zygote:
        _zygote.append(Zygote())
    if chunk.get("kind") == "cum":
        return cumulative(chunk, rec)
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
