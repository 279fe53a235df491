"""C04: batch values of cSIL rCIP equal their definitions."""
from .. import batchdef
from ..batchdef import ASSUMPTIONS, BOUNDS, check_case, chunks  # noqa: F401

ID = "C04"
INDICES = "cSIL rCIP".split()


def run(chunk, rec):
    batchdef.run(chunk, rec, INDICES)
