"""Process environment: must be imported before jax."""

import os
import sys

os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ["JAX_PLATFORMS"] = "cpu"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True

# hypothesis lives in the tooling environment; append, so that the project's own
# environment (jax, numpy, ...) always wins
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)

REPO = "/repo"
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
