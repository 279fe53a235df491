"""C18: incremental state does not grow with the number of samples."""
import collections
import gc
import itertools
import sys
import types

from .. import common as C
from .. import space
from ..target import NAMES, np

ID = "C18"
BOUNDS = {
    "quick": "all periodic label words of period <= 3 over 3 clusters (each cluster opened first), 4 data patterns (cloud, constant, "
             "drifting, alternating), 1 and 3 features, 700 samples; 5000 samples for 6 words in 2 features; 20 clusters, 1500 samples; 5..40 features and 10, 40 "
             "clusters, 600 or 900 samples; "
             "data held (items reachable from the object) measured after the warm-up and at 6 later points",
    "thorough": "as quick with 3000 samples, 60000 samples for 6 words",
}
ASSUMPTIONS = ["up to 16 items of growth over the whole run are ignored (lazily created constant-size members)"]
SLACK = 16
LONG = [(0,), (0, 1), (0, 1, 2), (2,), (1, 1, 0), (0, 2)]


def chunks(tier):
    t = tier == "thorough"
    words = [w for n in (1, 2, 3) for w in itertools.product(range(3), repeat=n)]
    out = []
    for name in NAMES:
        for d in (1, 3):
            for pat in ("cloud", "const", "drift", "alt"):
                out.append(dict(cases=[dict(index=name, d=d, k=3, word=list(w), pattern=pat, n=3000 if t else 700)
                                       for w in words if pat == "cloud" or len(w) < 3]))
        for w in LONG:
            out.append(dict(cases=[dict(index=name, d=2, k=3, word=list(w), pattern="cloud", n=60000 if t else 5000)]))
        out.append(dict(cases=[dict(index=name, d=2, k=20, word=list(range(20)), pattern="cloud", n=1500)]))
        for d, k, w in ((5, 4, (0, 1, 2, 3)), (8, 2, (0, 1)), (20, 3, (0, 2)), (40, 2, (1, 0)), (2, 10, tuple(range(10))), (3, 40, tuple(range(40)))):
            out.append(dict(cases=[dict(index=name, d=d, k=k, word=list(w), pattern="cloud", n=900 if k < 20 else 600)]))
        out.append(dict(cases=[dict(index=name, d=2, k=1, word=[0], pattern=p, n=1500) for p in ("cloud", "const")]))
    return out


SKIP = (type, types.ModuleType, types.CodeType, types.BuiltinFunctionType, types.GetSetDescriptorType,
        types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType, np.dtype, np.ufunc)


CONTAINERS = (list, dict, set, bytearray, collections.deque, np.ndarray)


def package_data():
    """Containers the package keeps outside its objects: class attributes and module globals."""
    for m in [m for n, m in list(sys.modules.items()) if n == "cvi" or n.startswith("cvi.")]:
        for n, v in list(vars(m).items()):
            if n.startswith("__"):
                continue
            if isinstance(v, CONTAINERS):
                yield v
            elif isinstance(v, type) and v.__module__.startswith("cvi"):
                yield from (w for w in vars(v).values() if isinstance(w, CONTAINERS))


def items(o):
    """Items of data held for an object: array elements, container entries, characters."""
    todo = [o] + list(package_data())
    seen = {id(x) for x in todo}
    keep = []
    total = 0
    while todo:
        x = todo.pop()
        if isinstance(x, SKIP):
            continue
        keep.append(x)
        total += 1
        if isinstance(x, np.ndarray):
            base = x.base
            total += x.size if base is None else 0
            refs = list(x.flat) if x.dtype.hasobject else []
            if base is not None:
                refs.append(base)
        elif isinstance(x, (str, bytes, bytearray, memoryview)):
            total += len(x) // 8 if not isinstance(x, memoryview) else x.nbytes // 8
            refs = []
        elif isinstance(x, int):
            total += x.bit_length() // 256
            refs = []
        elif isinstance(x, types.FunctionType):
            refs = list(x.__closure__ or ()) + list(x.__defaults__ or ())
        else:
            refs = gc.get_referents(x)
            try:                          # entries may be shared small objects: count the slots
                total += len(x)
            except TypeError:
                pass
        for r in refs:
            if id(r) not in seen:
                seen.add(id(r))
                todo.append(r)
    return total


def check(case, rec):
    name, d, k, word, n = case["index"], case["d"], case["k"], case["word"], case["n"]
    pat = case["pattern"]
    base = C.array(space.cloud(d, 97, 4))
    o = C.new(name)
    warm = 4 * k + 8
    marks = {warm + (n - warm) * j // 6 for j in range(1, 7)}
    first = None
    for i in range(n):
        # open every cluster and return to each of them, then follow the word
        l = i % k if i < 3 * k else word[i % len(word)]
        if pat == "cloud":
            x = base[i % 97] + 1.0 / (i + 3)
        elif pat == "const":
            x = base[l] * 1.0
        elif pat == "drift":
            x = base[i % 97] + 0.01 * i
        else:
            x = base[l] * (1.0 if i % 2 else -1.0)
        o.get_cvi(x.copy(), l)
        if i + 1 == warm:
            first = items(o)
        elif i + 1 in marks:
            now = items(o)
            rec.checked += 1
            if now > first + SLACK:
                return "%s (%d features, %d clusters, label word %r, %s data) holds %d items after %d samples, %d after %d" % (
                    name, d, k, word, pat, first, warm, now, i + 1)
    rec.transitions += n
    rec.traces += 1
    rec.state(hash((d, k, tuple(word), pat, n)))
    rec.outcome(first)
    return None


def run(chunk, rec):
    C.drive(chunk["cases"], check, rec)


check_case = C.replay(check)
