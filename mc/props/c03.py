"""C03: batch values of DB PS GD43 GD53 equal their definitions."""
from .. import batchdef
from ..batchdef import ASSUMPTIONS, BOUNDS, check_case, chunks  # noqa: F401

ID = "C03"
INDICES = "DB PS GD43 GD53".split()


def run(chunk, rec):
    batchdef.run(chunk, rec, INDICES)
