"""The call alphabet of C09 and C10: accepted and refused calls, and the automaton that says which is which."""
from .target import np

# name -> (data, label, kind, features);  kind: inc (1-D sample), batch (well-formed batch), bad (never acceptable)
OPS = {
    "i2a": ([1., 2.], 0, "inc", 2),
    "i2b": ([4., -1.], 1, "inc", 2),
    "i2c": ([0., 3.], 0, "inc", 2),
    "i2n": ([6., 5.], 9, "inc", 2),
    "i3": ([1., 2., 3.], 1, "inc", 3),
    "i3n": ([2., 0., 3.], 7, "inc", 3),
    "i1": ([7.], 0, "inc", 1),
    "z": (3.0, 0, "bad", 0),
    "r3": ([[[1., 2.], [3., 4.]], [[5., 6.], [7., 9.]]], [0, 1], "bad", 0),
    "b2": ([[1., 2.], [4., 0.], [2., 2.], [5., 1.]], [0, 1, 0, 1], "batch", 2),
    "b3": ([[1., 2., 0.], [4., 0., 1.], [2., 2., 2.], [5., 1., 7.]], [3, 3, 5, 5], "batch", 3),
    "b2s": ([[1., 2.], [4., 0.], [2., 2.]], [4, 4, 4], "bad", 2),
    "b2k": ([[1., 2.], [4., 0.], [2., 2.]], 1, "bad", 2),
    "b2m": ([[1., 2.], [4., 0.], [2., 2.], [5., 1.]], [0, 1, 0], "bad", 2),
    "b2l": ([[1., 2.], [4., 0.], [2., 2.], [5., 1.]], [0, 1, 0, 1, 1], "bad", 2),
    "b0": ("empty", [], "bad", 2),
    "b1": ([[3., 4.]], [0], "bad", 2),
    "b1l": ([[3., 4.]], [0, 1], "bad", 2),
}


def arguments(op, as_list=False):
    data, label, kind, _ = OPS[op]
    x = np.zeros((0, 2)) if data == "empty" else np.array(data, dtype=float)
    if isinstance(label, list) and not as_list:
        label = np.array(label, dtype=int)
    return x, label


FRESH = ("fresh", 0)


def accepts(state, op):
    """Reference automaton: next state, or None when the call must be refused."""
    _, _, kind, f = OPS[op]
    mode, feats = state
    if kind == "inc":
        if mode == "fresh" or (mode == "stream" and feats == f):
            return ("stream", f)
    elif kind == "batch" and mode == "fresh":
        return ("batch", f)
    return None
