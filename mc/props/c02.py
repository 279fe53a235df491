"""C02: batch values of CH WB XB equal their definitions."""
from .. import batchdef
from ..batchdef import ASSUMPTIONS, BOUNDS, check_case, chunks  # noqa: F401

ID = "C02"
INDICES = "CH WB XB".split()


def run(chunk, rec):
    batchdef.run(chunk, rec, INDICES)
