"""Process set-up shared by the parent and the workers (import this first)."""
import os
import sys
import warnings

# hypothesis lives in the tooling venv; append so that the project's own
# numpy/scipy/jax win
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent-hypothesis")
warnings.filterwarnings("ignore")

import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)

import parametricmatrixmodels as pmm  # noqa: E402

if not os.path.realpath(pmm.__file__).startswith("/repo/"):
    raise ImportError(f"code under test is not /repo's: {pmm.__file__}")
