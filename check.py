#!/usr/bin/env python3
"""Run one runtime-monitoring check:  check.py <PROPERTY-ID> [--replay FILE]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: no violation observed.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not do its job (never on a healthy tree).
"""
import os
import sys

_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "ZB_CHECK_ENV": "1",
}
PY = "/opt/venv/bin/python"
if os.environ.get("ZB_CHECK_ENV") != "1":
    env = dict(os.environ, **_ENV)
    # Only the working tree of /repo may provide zoidberg
    env["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # Nothing to build; fail early if the tools are not there
        import numpy, scipy, shapely, netCDF4, zoidberg  # noqa: E401,F401

        print("ready:", zoidberg.__file__)
        sys.exit(0)
    sys.exit(harness.main(sys.argv[1:]))
