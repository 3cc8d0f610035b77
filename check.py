#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by running its monitors"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import runner  # noqa: E402
from vf.checks import CHECKS  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit("usage: check.py <property> [quick|thorough]")
    sys.exit(runner.main(CHECKS, sys.argv[1:]))
