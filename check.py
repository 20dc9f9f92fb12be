#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--scenario NAME ...]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VP_REEXEC") != "1":
    e = dict(os.environ, VP_REEXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py] + sys.argv, e)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symvrp.main import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
