"""C12: distinct objects can be used from different threads.

Two real threads run under a controlled scheduler: a monitoring callback counts the byte-code instructions (or source lines) each
thread executes inside the package and hands control over at the chosen ones, so every schedule with one preemption (at every
instruction) or two preemptions (at every pair of lines) is executed once.
"""
import gc
import multiprocessing as mp
import os
import sys
import threading
import types

from .. import common as C
from .. import space
from ..target import NAMES, SRC, np

ID = "C12"
BOUNDS = {
    "quick": "two threads, own objects (constructed in the thread), 3-call streams and batches of the same shape: one preemption at "
             "every byte-code instruction inside the package (same index, 4 role pairs), one preemption at every line (all 81 "
             "index pairs; same index in 1..40 features with 2..5 clusters, 2 to 4 role pairs; same index with 9, 18, 35 clusters, first two and last execution of every line in the last four calls), two preemptions at every pair of lines (same index, 1- and 2-call roles)",
    "thorough": "as quick with one preemption at every instruction for all 81 index pairs and two preemptions at every pair of lines "
                "for streams of 3 calls",
}
ASSUMPTIONS = ["preemption points are byte-code instructions of package code (NumPy calls are atomic under the interpreter lock)",
               "each object is used by one thread only"]
P = [list(map(float, p)) for p in space.generic(2, 12, 0)]
Q = [list(map(float, p)) for p in space.generic(2, 12, 5)]
ROLES = {
    "sA": [("s", P[0], 0), ("s", P[1], 1), ("s", P[2], 0)],
    "sB": [("s", Q[0], 0), ("s", Q[1], 1), ("s", Q[2], 1)],
    "tA": [("s", P[0], 0), ("s", P[1], 1)],
    "tB": [("s", Q[0], 0), ("s", Q[1], 1)],
    "bA": [("c", P[0:4], [0, 1, 0, 1])],
    "bB": [("c", Q[0:4], [0, 1, 1, 0])],
}
for _d, _k in ((1, 2), (3, 3), (5, 4), (9, 3), (20, 2), (40, 2), (2, 5)):
    for _w in "AB":
        _p = [list(map(float, p)) for p in space.cloud(_d, 2 * _k + 2, 1 if _w == "A" else 3)]
        _l = [i % _k for i in range(2 * _k)] + ([0, 1] if _w == "A" else [_k - 1, 0])
        ROLES["w%d%s" % (_d, _w)] = [("s", p, l) for p, l in zip(_p, _l)]
        ROLES["c%d%s" % (_d, _w)] = [("c", _p, _l)]
for _d, _k in ((2, 9), (1, 18), (3, 35)):          # many clusters opened, then returns
    for _w in "AB":
        _p = [list(map(float, p)) for p in space.cloud(_d, _k + 3, 1 if _w == "A" else 3)]
        _l = list(range(_k)) + ([0, _k - 1, 1] if _w == "A" else [_k - 2, 0, _k - 1])
        ROLES["m%d%s" % (_k, _w)] = [("s", p, l) for p, l in zip(_p, _l)]
        ROLES["n%d%s" % (_k, _w)] = [("c", _p, _l)]
MANY = (9, 18, 35)

ROOT = os.path.realpath(SRC) + os.sep
WIDE = (1, 3, 5, 9, 20, 40, 2)
MON = sys.monitoring
TOOL = 3
_mode = None
_current = None


def package_code():
    """All code objects of the package."""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) in seen or not os.path.realpath(c.co_filename).startswith(ROOT):
            continue
        seen.add(id(c))
        yield c
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def on_event(code, where):
    s = _current
    if s is not None:
        me = s.ident.get(threading.get_ident())
        if me is not None:
            s.event(me, code, where)


def monitor(opcodes):
    """Turns instruction or line events of package code on (while no scheduled thread is running)."""
    global _mode
    if _mode == opcodes:
        return
    if _mode is None:
        MON.use_tool_id(TOOL, "cvi-mc")
        MON.register_callback(TOOL, MON.events.INSTRUCTION, on_event)
        MON.register_callback(TOOL, MON.events.LINE, on_event)
    _mode = opcodes
    for c in package_code():
        MON.set_local_events(TOOL, c, MON.events.INSTRUCTION if opcodes else MON.events.LINE)


_call = [0]


def job(name, role):
    def fn():
        o = C.new(name)
        out = []
        for i, (kind, x, l) in enumerate(ROLES[role]):
            _call[0] = i
            try:
                v = C.scalar(o.get_cvi(np.array(x), l if kind == "s" else np.array(l)))
            except Exception as e:
                v = "raised %s" % type(e).__name__
            out += [v, C.scalar(o.criterion_value)]
        return out
    return fn


def alone(arg):
    name, role = arg
    return job(name, role)()


class Sched:
    """Two threads, control handed over at chosen event counts."""

    late = 0

    def __init__(self, fns, points, opcodes):
        self.fns, self.points, self.opcodes = fns, points, opcodes
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.result = [None, None]
        self.count = [0, 0]
        self.ident = {}
        self.trace = None

    def event(self, me, code, where):
        self.count[me] += 1
        if self.trace is not None and me == 0:
            self.trace.append((_call[0], id(code), where))
        if self.count[me] == self.points[me]:
            self.switch(me)

    def switch(self, me):
        other = 1 - me
        if self.done[other]:
            return
        self.go[other].release()
        if not self.go[me].acquire(timeout=0.5 if not Sched.late else 0.02 if Sched.late < 20 else 0.002):
            Sched.late += 1            # the other thread waits for something this one holds

    def body(self, me):
        self.go[me].acquire()
        self.ident[threading.get_ident()] = me
        try:
            self.result[me] = self.fns[me]()
        except BaseException as e:
            self.result[me] = ["raised %s" % type(e).__name__]
        finally:
            del self.ident[threading.get_ident()]
            self.done[me] = True
            self.go[1 - me].release()

    def run(self):
        global _current
        monitor(self.opcodes)
        _current = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join(20)
        _current = None
        return self.result


def events(name, role, opcodes, last=None):
    """The number of events of a job; with last, those that are the first, second or last execution of a line in the last calls."""
    s = Sched([job(name, role), lambda: []], [0, 0], opcodes)
    s.trace = [] if last else None
    s.run()
    if s.count[0] < 4:
        raise RuntimeError("no events are reported")
    if not last:
        return s.count[0]
    where = {}
    for i, key in enumerate(s.trace):
        if key[0] >= len(ROLES[role]) - last:
            where.setdefault(key, []).append(i + 1)
    return sorted({i for w in where.values() for i in w[:2] + w[-1:]})


def chunks(tier):
    t = tier == "thorough"
    keys = [(n, r) for n in NAMES for r in ROLES]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        vals = dict(zip(keys, pool.map(alone, keys, chunksize=1)))
    out = []

    def add(a, b, ra, rb, pre, opcodes, parts=1, **more):
        for i in range(parts):
            out.append(dict(more, names=[a, b], roles=[ra, rb], pre=pre, opcodes=opcodes, part=i, parts=parts,
                            alone=[vals[a, ra], vals[b, rb]]))
    for a in NAMES:
        for ra, rb in (("sA", "sB"), ("bA", "bB"), ("sA", "bB"), ("bA", "sB")):
            add(a, a, ra, rb, 1, True, 4)
        for ra, rb in (("tA", "tB"), ("bA", "bB")) + ((("bA", "tB"), ("tA", "bB")) if t else ()):
            add(a, a, ra, rb, 2, False, 8)
        if t:
            add(a, a, "sA", "sB", 2, False, 16)
        for d in WIDE:
            for ra, rb in (("w%dA", "w%dB"), ("c%dA", "c%dB"), ("w%dA", "c%dB"), ("c%dA", "w%dB"))[:4 if d in (3, 5) else 2]:
                add(a, a, ra % d, rb % d, 1, False, 1)
        for k in MANY:
            for r in "mn":
                add(a, a, "%s%dA" % (r, k), "%s%dB" % (r, k), 1, False, 1, tail=4)
        for b in NAMES:
            if a != b:
                for ra, rb in (("tA", "tB"), ("bA", "bB")):
                    add(a, b, ra, rb, 1, t, 1)
                if t:
                    add(a, b, "sA", "bB", 1, True, 1)
    return out


def cases(c):
    if c.get("tail"):
        pts = [(i, 0) for i in events(c["names"][0], c["roles"][0], c["opcodes"], c["tail"])]
        for p in pts:
            yield dict(names=c["names"], roles=c["roles"], opcodes=c["opcodes"], alone=c["alone"], points=list(p))
        return
    n0 = events(c["names"][0], c["roles"][0], c["opcodes"])
    if c["pre"] == 1:
        pts = [(i, 0) for i in range(1, n0 + 1)]
    else:
        n1 = events(c["names"][1], c["roles"][1], c["opcodes"])
        pts = [(i, j) for i in range(1, n0 + 1) for j in range(1, n1 + 1)]
    for p in pts[c["part"]::c["parts"]]:
        yield dict(names=c["names"], roles=c["roles"], opcodes=c["opcodes"], alone=c["alone"], points=list(p))


def check(case, rec):
    s = Sched([job(n, r) for n, r in zip(case["names"], case["roles"])], case["points"], case["opcodes"])
    got = s.run()
    rec.transitions += s.count[0] + s.count[1]
    rec.traces += 1
    rec.checked += 2
    rec.state(hash((tuple(case["names"]), tuple(case["roles"]), case["opcodes"], tuple(case["points"]))))
    for i in (0, 1):
        want = case["alone"][i]
        if got[i] is None or len(got[i]) != len(want) or not all(equal(a, b) for a, b in zip(got[i], want)):
            return "%s in thread %d (%s) obtains %r, alone %r; other thread: %s (%s); preempted at %s %r" % (
                case["names"][i], i, case["roles"][i], got[i], want, case["names"][1 - i], case["roles"][1 - i],
                "instruction" if case["opcodes"] else "line", case["points"])
    return None


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return C.same(a, b)


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
