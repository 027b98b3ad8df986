#!/opt/venv/bin/python
"""Entry point: run.py CXX [--replay FILE] [--suite NAME] [--n N]"""
import os
import sys

_ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC",
        "LANG": "C.UTF-8", "PYTHONWARNINGS": "ignore", "PYTHONUTF8": "1"}
if any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
