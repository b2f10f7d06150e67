#!/usr/bin/env python3
"""check.py C01 [--tier=thorough] | check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402

boot.reexec()
from sim import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
