"""C21: the package offers exactly the nine documented indices."""
import importlib

from .. import common as C
from .. import model, space
from ..target import NAMES, np, cvi

ID = "C21"
BOUNDS = {
    "quick": "the whole public surface: 9 acronyms x (package attribute, modules package, MODULES list, star import) and, for every "
             "class so reached, all canonical label words of n=5 (2 features), n=4 (1, 3 features) in both modes against the definition",
    "thorough": "as quick with n=6",
}
ASSUMPTIONS = ["the documented surface is README.md and docs/source of the pinned commit"]


def chunks(tier):
    n = 6 if tier == "thorough" else 5
    out = [dict(kind="surface")]
    for way in ("package", "modules", "list", "star"):
        for name in NAMES:
            for d, m in ((2, n), (1, n - 1), (3, n - 1)):
                out.append(dict(kind="value", way=way, index=name, d=d, n=m))
    return out


def reach(way, name):
    """The class an acronym denotes, reached one of the documented ways."""
    if way == "package":
        return getattr(cvi, name)
    if way == "modules":
        return getattr(importlib.import_module("cvi.modules"), name)
    if way == "list":
        found = [c for c in cvi.MODULES if c.__name__ == name]
        return found[0] if found else None
    ns = {}
    exec("from cvi import *", ns)
    return ns[name]


def cases(c):
    if c["kind"] == "surface":
        yield dict(kind="surface")
        return
    for labels in space.rgs(c["n"]):
        if max(labels):
            yield dict(kind="value", way=c["way"], index=c["index"], d=c["d"], labels=list(labels))


def check(case, rec):
    if case["kind"] == "surface":
        return surface(rec)
    name, d, labels = case["index"], case["d"], case["labels"]
    try:
        cls = reach(case["way"], name)
    except (AttributeError, KeyError, ImportError) as e:
        return "%s cannot be reached through the %s: %s" % (name, case["way"], e)
    if cls is None:
        return "%s is not in the list of modules" % name
    pts = space.generic(d, len(labels), 0)
    st = C.build(d, 0, pts, labels)
    ref = model.evaluate(st, name)
    if ref is None or ref[1] == float("inf"):
        rec.undefined += 1
        return None
    X = C.array(pts)
    try:
        o = cls()
        b = C.scalar(o.get_cvi(X, np.array(labels)))
        o = cls()
        for i, l in enumerate(labels):
            v = C.scalar(o.get_cvi(X[i].copy(), l))
    except Exception as e:
        if not C.from_target(e) and not isinstance(e, TypeError):
            raise
        return "%s reached through the %s %s" % (name, case["way"], C.exception_text(e))
    rec.transitions += len(labels) + 1
    rec.traces += 2
    rec.checked += 2
    rec.outcome(b)
    rec.state(model.canon(d, 0, pts, labels))
    for what, w in (("batch", b), ("incremental", v)):
        if not C.close(w, ref):
            return "%s reached through the %s: %s value %r is not that of the index it is named after (%r)" % (
                name, case["way"], what, w, ref[0])
    return None


def surface(rec):
    classes = []
    for name in NAMES:
        for way in ("package", "modules", "list", "star"):
            try:
                c = reach(way, name)
            except (AttributeError, KeyError, ImportError) as e:
                return "%s cannot be reached through the %s: %s" % (name, way, e)
            if c is None:
                return "%s is not in the list of modules" % name
            rec.transitions += 1
            rec.checked += 1
            if not isinstance(c, type) or not issubclass(c, cvi.CVI) or c is cvi.CVI:
                return "%s (%s) is not an index class derived from CVI" % (name, way)
            if way == "package":
                classes.append(c)
            elif c is not classes[-1]:
                return "%s reached through the %s is another class than cvi.%s" % (name, way, name)
            try:
                c()
            except Exception as e:
                return "%s() %s" % (name, C.exception_text(e))
            rec.state(hash((name, way)))
    if len(set(classes)) != 9:
        return "the nine acronyms denote %d distinct classes" % len(set(classes))
    listed = list(cvi.MODULES)
    for c in classes:
        if listed.count(c) != 1:
            return "%s occurs %d times in the list of modules" % (c.__name__, listed.count(c))
    if len(listed) != 9:
        return "the list of modules has %d entries: %r" % (len(listed), listed)
    rec.checked += 11
    rec.traces += 1
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


check_case = C.replay(check)
