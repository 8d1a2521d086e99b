#!/opt/venv/bin/python
"""Deterministic simulation checks for hyperstate.

  check.py <property> [--tier quick|thorough] [--jobs N] [--seeds A:B]
  check.py --replay <file> [--trace]
  check.py --selftest
  check.py --setup
"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath(PY) and os.path.exists(PY):
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

if __name__ == "__main__":
    from dst import runner

    sys.exit(runner.main(sys.argv[1:]))
