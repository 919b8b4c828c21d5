#!/opt/venv/bin/python
"""Runs the check of one property: check.py C01 [--tier quick|thorough] [--seed N], or check.py --replay FILE."""

import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"  # never read byte code that may be stale
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import framework  # noqa: E402

if __name__ == "__main__":
    sys.exit(framework.main())
