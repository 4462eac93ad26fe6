#!/opt/venv/bin/python
"""Usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot  # noqa: E402,F401  (must come first)
from vlib import engine  # noqa: E402

if __name__ == '__main__':
    sys.exit(engine.main())
