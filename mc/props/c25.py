"""C25: the work of one incremental call does not grow with the number of samples."""
import itertools
import os
import sys
import tracemalloc

from .. import common as C
from .. import space
from ..target import NAMES, SRC, np

from cvi import compat                     # noqa: E402

ID = "C25"
LEGACY = ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"]
BOUNDS = {
    "quick": "all periodic label words of period <= 3 over 3 clusters (each cluster opened and revisited first), 4 data patterns (cloud, "
             "constant, drifting, alternating), 1 and 3 features, 300 samples; 6 words in 2 features with 3000 samples; 1..20 clusters, up to "
             "20 features, 600 samples; the legacy indices on 14 words of 600 samples; at every call: lines and jumps executed inside the package, and the "
             "peak of the memory allocated during the call",
    "thorough": "as quick with 1200 samples, 20000 samples for the 6 words",
}
ASSUMPTIONS = ["work is what the package's own lines, jumps and allocations show; time spent inside a NumPy call is judged by the memory it takes",
               "growth up to a half (and 60 events or 6 KiB) between the first fifth of a stream and the rest is granted to branches that depend on the data"]
LONG = [(0,), (0, 1), (0, 1, 2), (2,), (1, 1, 0), (0, 2)]
MON = sys.monitoring
TOOL = 3
ROOT = os.path.realpath(SRC) + os.sep


def chunks(tier):
    t = tier == "thorough"
    words = [list(w) for n in (1, 2, 3) for w in itertools.product(range(3), repeat=n)]
    out = []
    for name in NAMES:
        for d in (1, 3):
            for pat in ("cloud", "const", "drift", "alt"):
                out.append(dict(cases=[dict(index=name, d=d, k=3, word=w, pattern=pat, n=1200 if t else 300)
                                       for w in words if pat == "cloud" or len(w) < 3]))
        for w in LONG:
            out.append(dict(cases=[dict(index=name, d=2, k=3, word=list(w), pattern="cloud", n=20000 if t else 3000)]))
        for d, k in ((2, 1), (2, 2), (5, 4), (8, 2), (20, 3), (2, 10), (3, 20)):
            out.append(dict(cases=[dict(index=name, d=d, k=k, word=w, pattern="cloud", n=600) for w in ([0], list(range(k)))[:k]]))
    for name in LEGACY:
        for k in (1, 2, 3, 8):
            out.append(dict(cases=[dict(index=name, d=2, k=k, word=w, pattern=p, n=3000 if t else 600)
                                   for w in ([0], list(range(k)))[:k] for p in ("cloud", "drift")]))
    return out


class Meter:
    """Counts the lines and jumps the package executes, and the peak of the memory allocated."""

    def __enter__(self):
        self.n = 0
        self.own = {}
        MON.use_tool_id(TOOL, "cvi-work")
        for ev in (MON.events.LINE, MON.events.JUMP):
            MON.register_callback(TOOL, ev, self.event)
        MON.set_events(TOOL, MON.events.LINE | MON.events.JUMP)
        tracemalloc.start()
        return self

    def event(self, code, *a):
        f = code.co_filename
        mine = self.own.get(f)
        if mine is None:
            mine = self.own[f] = os.path.realpath(f).startswith(ROOT)
        if not mine:
            return MON.DISABLE
        self.n += 1

    def __exit__(self, *a):
        tracemalloc.stop()
        MON.set_events(TOOL, 0)
        for ev in (MON.events.LINE, MON.events.JUMP):
            MON.register_callback(TOOL, ev, None)
        MON.free_tool_id(TOOL)
        MON.restart_events()

    def call(self, fn, x, l):
        tracemalloc.reset_peak()
        m0 = tracemalloc.get_traced_memory()[0]
        n0 = self.n
        fn(x, l)
        return self.n - n0, tracemalloc.get_traced_memory()[1] - m0


def check(case, rec):
    name, d, k, word, n = case["index"], case["d"], case["k"], case["word"], case["n"]
    pat = case["pattern"]
    base = C.array(space.cloud(d, 97, 4))
    if name in LEGACY:
        fn = compat.iCVI(name).update
    else:
        fn = C.new(name).get_cvi
    warm = 3 * k + 2 * len(word) + 8
    split = warm + (n - warm) // 5
    first = None
    top = [0, 0]
    with Meter() as meter:
        for i in range(n):
            l = i % k if i < 3 * k else word[i % len(word)]
            if pat == "cloud":
                x = base[i % 97] + 1.0 / (i + 3)
            elif pat == "const":
                x = base[l] * 1.0
            elif pat == "drift":
                x = base[i % 97] + 0.01 * i
            else:
                x = base[l] * (1.0 if i % 2 else -1.0)
            ev, mem = meter.call(fn, x.copy(), l)
            if i < warm:
                continue
            if i <= split:
                top = [max(top[0], ev), max(top[1], mem)]
                first = top
            else:
                rec.checked += 2
                if ev > 1.5 * first[0] + 60 or mem > 1.5 * first[1] + 6144:
                    return "%s (%d features, %d clusters, label word %r, %s data): sample %d takes %d steps and %d bytes of working memory; no sample from %d to %d took more than %d and %d" % (
                        name, d, k, word, pat, i + 1, ev, mem, warm + 1, split + 1, first[0], first[1])
    if not first or not first[0]:
        raise RuntimeError("no step of the package was observed")
    rec.transitions += n
    rec.traces += 1
    rec.state(hash((d, k, tuple(word), pat, n)))
    rec.outcome((name, first[0]))
    return None


def run(chunk, rec):
    C.drive(chunk["cases"], check, rec)


check_case = C.replay(check)
