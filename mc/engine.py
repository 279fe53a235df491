"""Runs the exhaustive exploration of one property and reports the outcome.

Exit 0: the property held in everything explored.  Exit 1: a VIOLATION line was printed.  Anything else: harness error.
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("CVI_MC_EVIDENCE", os.path.join(VERIF, "evidence"))
QUICK_LIMIT = 780         # seconds after which a quick run stops and reports what it has covered
CHUNK_LIMIT = 400         # seconds a chunk may take before the code under test counts as not answering


class Rec:
    """What one chunk covered."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.checked = 0          # property evaluations (comparisons actually made)
        self.undefined = 0        # states where the index is mathematically undefined: nothing to compare
        self.ill = 0              # defined, but too ill conditioned for any justified tolerance
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.failures = []
        self.extra = {}

    def state(self, key):
        self.states.add(key)

    def outcome(self, v):
        if len(self.outcomes) < 5000:
            try:
                self.outcomes.add(float("%.9g" % v))
            except (TypeError, ValueError):
                self.outcomes.add(repr(v)[:40])

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def fail(self, case, message):
        self.failures.append((case, message))

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)


_MODULE = None


def _work(chunk):
    from . import common, target
    rec = Rec()
    Hang = common.Interrupted

    def onalarm(sig, frm):
        raise Hang("no answer within %d s" % CHUNK_LIMIT)
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CHUNK_LIMIT)
    t0 = time.time()
    try:
        _MODULE.run(chunk, rec)
    except Hang as e:
        if target.from_target(e):
            rec.fail({"chunk": chunk}, "the code under test did not return: %s" % e)
        else:
            rec.extra["incomplete"] = 1
    except Exception as e:                       # an exception no case caught
        sys.stderr.write(traceback.format_exc())
        rec.fail({"chunk": chunk}, common.exception_text(e) + " (%s)" % common.place(e))
    finally:
        signal.alarm(0)
    rec.extra["cpu_ms"] = int(1000 * (time.time() - t0))
    return rec


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    try:
        return float(x)
    except Exception:
        return repr(x)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def main(module, tier):
    global _MODULE
    _MODULE = module
    pid = module.ID
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tot = Rec()
    early = None
    try:
        chunks = list(module.chunks(tier))
    except Exception as e:                     # the reference runs of some properties happen here
        sys.stderr.write(traceback.format_exc())
        chunks = []
        early = ({"chunks": tier}, "preparing the exploration raised %s: %s" % (type(e).__name__, e))
    known = {k["signature"]: k for k in known_findings(pid)}
    seen_known = {}
    failure = early
    done = 0
    if getattr(module, "SERIAL", False):
        results = map(_work, chunks)
        pool = None
        cut = False
    else:
        pool = cf.ProcessPoolExecutor(max_workers=int(os.environ.get("CVI_MC_JOBS", "0")) or os.cpu_count() or 4,
                                      mp_context=mp.get_context("fork"))
        results = [pool.submit(_work, c) for c in chunks]
        cut = False
    try:
        for chunk, rec in zip(chunks, results):
            if pool is not None:
                try:
                    rec = rec.result(timeout=None if tier == "thorough" else max(0.0, t0 + QUICK_LIMIT - time.time()))
                except cf.TimeoutError:        # a machine far slower than the bounds were chosen for: report what was covered
                    cut = True
                    break
                except cf.process.BrokenProcessPool:
                    failure = ({"chunk": chunk}, "a process running the code under test ended abruptly")
                    break
            if rec.extra.pop("incomplete", 0):
                cut = True
            done += 1
            tot.transitions += rec.transitions
            tot.traces += rec.traces
            tot.checked += rec.checked
            tot.undefined += rec.undefined
            tot.ill += rec.ill
            tot.states |= rec.states
            if len(tot.outcomes) < 100000:
                tot.outcomes |= rec.outcomes
            if len(tot.samples) < 6 and rec.samples:
                tot.samples += rec.samples
            for k, v in rec.extra.items():
                tot.extra[k] = tot.extra.get(k, 0) + v
            for case, msg in rec.failures:
                sig = case.get("signature") if isinstance(case, dict) else None
                if sig in known:
                    seen_known[sig] = known[sig]
                    continue
                if failure is None:
                    failure = (case, msg)
            if failure:
                break
    finally:
        if pool is not None:
            procs = list((getattr(pool, "_processes", None) or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for p in procs:                    # all results are in, or no longer wanted
                p.terminate()
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "states": len(tot.states),
        "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "property_evaluations": tot.checked,
        "distinct_outcomes": len(tot.outcomes),
        "undefined_states_skipped": tot.undefined,
        "ill_conditioned_skipped": tot.ill,
        "bounds": module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
        "exhaustive": failure is None and not cut,
        "chunks": [done, len(chunks)],
        "samples": jsonable(tot.samples) or ["none"],
    }
    cov.update({k: v for k, v in tot.extra.items()})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3), "violations": 0 if failure is None else 1,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: states=%d transitions=%d traces=%d evaluations=%d outcomes=%d undefined=%d ill=%d %.1fs" % (
        pid, tier, len(tot.states), tot.transitions, tot.traces, tot.checked, len(tot.outcomes), tot.undefined, tot.ill,
        time.time() - t0))
    for sig, k in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if failure is None:
        if tot.checked == 0 or tot.transitions == 0:
            sys.stderr.write("vacuous exploration\n")
            return 4
        return 0
    case, msg = failure
    body = json.dumps({"property": pid, "tier": tier, "case": jsonable(case), "message": msg}, indent=1)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body + "\n")
    print("  " + msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    return 1
