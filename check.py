#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decides one property on /repo's current working tree."""
import glob, os, sys

VENV = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
