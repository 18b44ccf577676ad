#!/usr/bin/env python3
"""Entry point:  run.py check C01 | run.py replay FILE | run.py setup."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import boot  # noqa: E402

boot.reexec()
boot.paths()
from vp import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
