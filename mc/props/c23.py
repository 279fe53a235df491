"""C23: calls have no effect outside the object."""
import atexit
import contextlib
import decimal
import gc
import io
import itertools
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

from .. import callops as O
from .. import common as C
from .. import space
from ..target import NAMES, np

from cvi import compat                     # noqa: E402

ID = "C23"
LEGACY = ["iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"]
BOUNDS = {
    "quick": "all call sequences of length up to 3 over 18 accepted and refused calls for 9 indices; all streams over a 2-point 2d grid of n=4 "
             "(degenerate states included) and canonical label words of n=5 for 9 indices and 7 legacy indices; streams and batches with up "
             "to 65 features, 65 clusters, 530 samples; surroundings compared before and after every history (and every call of the short ones)",
    "thorough": "as quick with sequences of length 4, grid streams of n=5 and words of n=6",
}
ASSUMPTIONS = ["the surroundings are: Python's and NumPy's global random state, NumPy's error handling, error call-back and print options, the "
               "warning filters, standard output, environment, working directory, opened files and started processes (audit events), "
               "threads, signal handlers, recursion limit, garbage-collector settings, "
               "decimal context, root logger, exit handlers, module search path; they are given two different sets of values, alternating from "
               "history to history",
               "floating-point warnings issued through the warnings module are not an effect"]

_audit = []
_listening = [False]
WATCHED = ("open", "os.", "subprocess.", "socket.", "shutil.", "tempfile.", "sqlite3.", "ctypes.dlopen", "webbrowser.", "urllib.")


def hook(event, args):
    if _listening[0] and event.startswith(WATCHED):
        if event == "open" and args and isinstance(args[0], str) and args[0].endswith((".py", ".pyc")):
            return                                # a module imported on demand
        if event in ("os.listdir", "os.scandir"):
            return
        _audit.append((event, repr(args)[:80]))


_hooked = []


def settings(kind):
    """Two different surroundings, so that a change to any particular value is a change in at least one of them."""
    e = os.environ
    for k in [k for k in e if k.endswith("_NUM_THREADS") or k.startswith(("PYTHON", "NPY_", "NUMPY_", "MPL", "CVI"))]:
        del e[k]
    np.random.seed(77 + kind)
    random.seed(78 + kind)
    warnings.resetwarnings()
    if kind == 0:
        np.seterr(all="ignore")
        warnings.simplefilter("ignore")
        np.set_printoptions(precision=9, threshold=777, suppress=True, linewidth=99)
        gc.enable()
        gc.set_threshold(701, 11, 9)
        sys.setrecursionlimit(3001)
        decimal.getcontext().prec = 31
        logging.getLogger().setLevel(logging.ERROR)
        e["CVI_MC_PROBE"] = "0"
        sys.setswitchinterval(0.0123)
    else:
        np.seterr(divide="warn", over="warn", under="warn", invalid="warn")
        warnings.filterwarnings("ignore", module=".*")
        warnings.filterwarnings("ignore", category=RuntimeWarning)
        np.set_printoptions(precision=7, threshold=555, suppress=False, linewidth=77)
        gc.disable()
        gc.set_threshold(7001, 7, 8)
        sys.setrecursionlimit(4002)
        decimal.getcontext().prec = 19
        logging.getLogger().setLevel(logging.CRITICAL)
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
            e[k] = "5"
        e["PYTHONHASHSEED"] = "77"
        e["PYTHONWARNINGS"] = "default"
        e["CVI_MC_PROBE"] = "1"
        sys.setswitchinterval(0.0077)


def surroundings():
    rs = np.random.get_state(legacy=False)
    return dict(
        python_random=random.getstate(), numpy_random=(rs["bit_generator"], rs["state"]["pos"], rs["state"]["key"].tobytes(), rs["has_gauss"]),
        error_handling=tuple(sorted(np.geterr().items())), error_callback=np.geterrcall(),
        print_options=repr(sorted(np.get_printoptions().items(), key=str)), warning_filters=tuple(map(repr, warnings.filters)),
        environment=tuple(sorted(os.environ.items())), directory=os.getcwd(), threads=threading.active_count(),
        signals=tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
        recursion=sys.getrecursionlimit(), collector=(gc.isenabled(), gc.get_threshold()), locale=locale.setlocale(locale.LC_ALL),
        excepthook=sys.excepthook, switch=sys.getswitchinterval(), decimal=repr(decimal.getcontext()), buffer=np.getbufsize(),
        logging=(logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        tracing=(sys.gettrace(), sys.getprofile()), exit_handlers=atexit._ncallbacks(), path=tuple(sys.path), show_warning=warnings.showwarning,
        float_info=sys.float_repr_style, display=sys.displayhook, audit=tuple(_audit))


def chunks(tier):
    t = tier == "thorough"
    out = [dict(kind="seq", index=name, first=a, n=4 if t else 3) for name in NAMES for a in O.OPS]
    out += [dict(kind="stream", base=c) for c in C.E2("2d2", 5 if t else 4) + C.E1(2, 6 if t else 5, 0) + C.E1(3, 4, 0)]
    out += [dict(kind="stream", base=c) for c in C.wide(dmax=65, kmax=65, nmax=530)]
    return out


def cases(c):
    if c["kind"] == "seq":
        for rest in itertools.product(O.OPS, repeat=c["n"] - 1):
            yield dict(index=c["index"], ops=[c["first"]] + list(rest))
    else:
        for d, e, pts, labels, m0 in C.expand(c["base"]):
            for name in NAMES + LEGACY:
                if name in LEGACY and len(labels) > 60:
                    continue
                yield C.describe(name, d, e, pts, labels)


def compare(before, after, out, what):
    for k in before:
        if before[k] != after[k]:
            return "%s changed the %s of the process: %s" % (what, k.replace("_", " "), repr(after[k])[:120])
    if out.getvalue():
        return "%s wrote %r" % (what, out.getvalue()[:80])
    return None


_turn = [0]


def check(case, rec):
    if "ops" in case and len(case["ops"]) < 3 or rec is _null:
        return run_in(0, case, rec) or run_in(1, case, rec)
    _turn[0] += 1
    return run_in(_turn[0] % 2, case, rec)


def run_in(kind, case, rec):
    if not _hooked:
        sys.addaudithook(hook)
        _hooked.append(True)
    settings(kind)
    name = case["index"]
    out = io.StringIO()
    del _audit[:]
    before = surroundings()
    with contextlib.redirect_stdout(out):
        _listening[0] = True
        try:
            msg = history(case, rec, name)
        finally:
            _listening[0] = False
    after = surroundings()
    gc.enable()
    rec.traces += 1
    rec.checked += 1
    return msg or compare(before, after, out, "%s (%s)" % (name, str(case.get("ops") or case.get("labels"))[:60]))


def history(case, rec, name):
    if "ops" in case:
        o = C.new(name)
        for op in case["ops"]:
            try:
                o.get_cvi(*O.arguments(op))
            except ValueError:
                pass
            except Exception as e:
                if isinstance(e, C.Interrupted):
                    raise
            rec.transitions += 1
        rec.state(hash((name, tuple(case["ops"]))))
        return None
    X = C.array(case["points"], case["e"])
    labels = case["labels"]
    rec.state(hash((name, C.tup(case["points"]), tuple(labels))))
    if name in LEGACY:
        o = compat.iCVI(name)
        for i, l in enumerate(labels):
            o.update(X[i].copy(), l)
        rec.transitions += len(labels)
        return None
    o = C.new(name)
    for i, l in enumerate(labels):
        o.get_cvi(X[i].copy(), l)
    rec.transitions += len(labels)
    if max(labels):
        C.new(name).get_cvi(X, np.array(labels))
        rec.transitions += 1
    return None


def run(chunk, rec):
    C.drive(cases(chunk), check, rec)


_null = C.Null()


def check_case(case):
    return C.guarded(check, case, _null)
