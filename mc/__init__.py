"""Model checking of AP6YC/cvi.  One linear-algebra thread per worker (set before NumPy is imported anywhere)."""
import os

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
