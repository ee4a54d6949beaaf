#!/opt/venv/bin/python
"""Run one property's monitors: check.py C01 [--tier quick|thorough] [--seed N] [--replay F]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    from rv.core import main

    sys.exit(main())
