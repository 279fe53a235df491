"""Imports the package under test from the working tree of /repo, bypassing every bytecode cache."""
import os
import sys
import tempfile
import warnings


REPO = os.environ.get("CVI_REPO", "/repo")
SRC = os.path.join(REPO, "src")

# bytecode is trusted by mtime and size, so a stale __pycache__ in the tree could hide an edit
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "cvi-mc-no-such-cache-%d" % os.getpid())
sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import cvi  # noqa: E402

if not os.path.realpath(cvi.__file__).startswith(os.path.realpath(SRC) + os.sep):
    raise SystemExit("cvi was imported from %s, not from %s" % (cvi.__file__, SRC))

NAMES = ["CH", "WB", "XB", "DB", "PS", "GD43", "GD53", "cSIL", "rCIP"]


def new(name):
    """A fresh index object, by its documented acronym."""
    return getattr(cvi, name)()


def from_target(exc):
    """Did this exception come out of the code under test (as opposed to the harness)?"""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(SRC) + os.sep):
            return True
        tb = tb.tb_next
    return False
