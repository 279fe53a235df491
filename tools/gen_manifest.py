"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STREAM = "explicit-state enumeration of all bounded call histories on the real code"
T = {
    "C01": (STREAM + ", incremental against batch at every node", "every history of the bounded space is executed; the exact model only decides where the index is defined and the tolerance"),
    "C02": (STREAM + ", against an exact-arithmetic reference model", "reference model computes the published formula from exact integer sums"),
    "C03": (STREAM + ", against an exact-arithmetic reference model", "reference model computes the published formula from exact integer sums"),
    "C04": (STREAM + ", against an exact-arithmetic reference model", "reference model computes the published formula from exact integer sums; ill-conditioned rCIP states are skipped and counted"),
    "C05": (STREAM + ", all injective relabellings", "values compared with the same history under canonical labels"),
    "C06": (STREAM + ", all permutations", "values compared with the unpermuted history"),
    "C07": (STREAM + ", all transformations of a fixed set", "values compared with the untransformed history"),
    "C08": (STREAM + ", all one-cluster phases and continuations", "zero is checked exactly, continuation against the exact reference model"),
    "C09": ("explicit-state product of the real object with the mode automaton, all call sequences up to a depth", "each call's outcome is compared with the automaton"),
    "C10": ("all call sequences up to a depth, refused calls removed in a shadow run", "purely relative: outcome with and without the refused calls"),
    "C11": ("exhaustive enumeration of all interleavings of calls on several objects", "values compared with those of each object alone in a pristine process"),
    "C12": ("stateless model checking of real threads under a controlled scheduler, preemption bound 1 (every byte-code instruction) and 2 (every pair of lines)", "NumPy calls are atomic; values compared with those of each thread alone"),
    "C13": (STREAM + ", all subsets of overwritten argument buffers", "arguments compared bytewise before and after; values compared with untouched arguments"),
    "C14": (STREAM + ", all combinations of element type, layout and label type", "values compared with the same numbers as plain doubles"),
    "C15": (STREAM + " through exactly degenerate states, against the exact reference model", "degeneracy is decided in exact integer arithmetic"),
    "C16": (STREAM + ", range checked at every node", "definedness from the exact model"),
    "C17": ("exhaustive enumeration of checkpoint positions, copy methods and continuations on the real code", "values compared with an object that was never copied"),
    "C18": ("exhaustive enumeration of periodic label words, state size monitored", "data reachable from the object is counted; 16 items of growth are ignored"),
    "C19": (STREAM + ", repeated and compared bitwise", "repetition in the same process"),
    "C20": (STREAM + " of the legacy classes, against exact books", "legacy index values themselves are not judged"),
    "C21": ("exhaustive enumeration of the public surface, each class against the exact reference model", "documented surface of the pinned commit"),
    "C22": ("exhaustive enumeration of periodic label words over long streams, against exact integer sums", "periodic words and fixed data patterns; lengths as stated in the evidence"),
    "C23": ("all call sequences and bounded histories on the real code, with the surroundings of the object monitored", "surroundings compared before and after, audit events recorded"),
    "C24": (STREAM + " of the legacy classes: all interleavings, copy positions and refused updates", "values compared with the same history alone in a pristine process"),
    "C25": ("exhaustive enumeration of periodic label words, the cost of every call monitored", "lines, jumps and peak memory of each call; growth up to a half is granted"),
    "C26": ("explicit-state enumeration of all bounded sequences of points on the real code, against exact books", "every cluster compared with the exact integer points after every step"),
    "C27": (STREAM + " of the legacy classes, against a reference model of the version 0 recursions", "the model keeps its own books; states whose denominator vanishes up to rounding are skipped and counted"),
}
PY = "/opt/venv/bin/python -B mc/check.py"
checks = [dict(property=p, quick_cmd="%s %s quick" % (PY, p), thorough_cmd="%s %s thorough" % (PY, p),
               evidence_file="evidence/%s.json" % p, technique=t, level="model_checking",
               level_note=n + "; exhaustive within the bounds recorded in the evidence file, nothing is claimed beyond them")
          for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import numpy'", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks import the package from /repo/src (pure Python, nothing to build). "
               "Replay a violation with: %s --replay <path>." % PY)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
