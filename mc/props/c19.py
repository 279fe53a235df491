"""C19: the reported value is a reproducible scalar, available on the object."""
import struct

from .. import common as C
from .. import space
from ..target import NAMES, np

ID = "C19"
BOUNDS = {
    "quick": "all canonical label words of n=6 (2 features), n=5 (1,3,8 features) on generic points, all streams over a 2-point 2d grid of n=5, "
             "3..12 clusters, 40..400-sample streams, streams with up to 33 features, 65 clusters, 530 samples; every call of the stream and the batch: type, criterion_value, values returned "
             "earlier, and bitwise equality of a repetition on a new object",
    "thorough": "as quick with words one longer",
}
ASSUMPTIONS = ["repetitions run in the same process"]


def chunks(tier):
    t = tier == "thorough"
    out = C.E1(2, 7 if t else 6, 0)
    for d in (1, 3, 8):
        out += C.E1(d, 6 if t else 5, 0)
    out += C.E2("2d2", 6 if t else 5)
    out += C.E2("1d3", 5 if t else 4)
    for K in (3, 7, 12):
        out += C.FK(2, K)
    for sizes in ((20, 20), (1, 39), (10, 10, 10, 10), (200, 200), (33, 1, 66)):
        for order in ("block", "robin", "back"):
            out += C.FS(2, sizes, order)
    out += C.wide(dmax=33, kmax=65, nmax=530)
    return out


def cases(c):
    for d, e, pts, labels, m0 in C.expand(c):
        for name in NAMES:
            yield C.describe(name, d, e, pts, labels)


def bits(v):
    return struct.pack("<d", float(v))


def is_real(v):
    return isinstance(v, (float, np.floating)) and not isinstance(v, np.ndarray)


def check(case, rec):
    name, labels = case["index"], case["labels"]
    X = C.array(case["points"], case["e"])
    n = len(labels)
    runs = []
    for rep in range(2):
        o = C.new(name)
        if not is_real(o.criterion_value) or bits(o.criterion_value) != bits(0.0):
            return "%s: a new object shows %r instead of 0.0" % (name, o.criterion_value)
        got, frozen = [], []
        for i in range(n):
            v = o.get_cvi(X[i].copy(), labels[i])
            if not is_real(v):
                return "%s: sample %d returned %s instead of one real number: %r" % (name, i + 1, type(v).__name__, v)
            c = o.criterion_value
            if not is_real(c) or bits(c) != bits(v):
                return "%s: sample %d returned %r but criterion_value shows %r" % (name, i + 1, v, c)
            if rep == 1:                  # reading changes nothing (the other run does not read)
                for _ in range(3):
                    o.criterion_value
                repr(o)
            got.append(v)
            frozen.append(bits(v))
        for i in range(n):
            if bits(got[i]) != frozen[i]:
                return "%s: the value returned for sample %d changed later" % (name, i + 1)
        runs.append(frozen)
        rec.transitions += n
        rec.traces += 1
        rec.checked += 3 * n
    for i in range(n):
        if runs[0][i] != runs[1][i]:
            return "%s: repeating the same %d calls on a new object gives %r instead of %r" % (
                name, i + 1, struct.unpack("<d", runs[1][i])[0], struct.unpack("<d", runs[0][i])[0])
    rec.state(hash((C.tup(case["points"]), tuple(labels))))
    if max(labels) > 0:
        vals = []
        for rep in range(2):
            o = C.new(name)
            v = o.get_cvi(X, np.array(labels))
            if not is_real(v):
                return "%s: a batch returned %s instead of one real number" % (name, type(v).__name__)
            if not is_real(o.criterion_value) or bits(o.criterion_value) != bits(v):
                return "%s: a batch returned %r but criterion_value shows %r" % (name, v, o.criterion_value)
            vals.append(bits(v))
            rec.transitions += 1
            rec.checked += 3
        rec.outcome(float(v))
        if vals[0] != vals[1]:
            return "%s: repeating a batch of %d samples on a new object gives another number" % (name, n)
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
