#!/opt/venv/bin/python
"""run.py CXX [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import boot, runner  # noqa: E402


def main():
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    rc = runner.main(mod)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
