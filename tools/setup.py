#!/usr/bin/env python3
"""Offline sanity check of the tools the checks need. The checks build everything else themselves from /repo's working tree."""
import shutil
import sys

missing = [t for t in ("clang++", "ninja", "llvm-symbolizer", "gcc") if not shutil.which(t)]
for m in ("yaml", "jinja2"):
    try:
        __import__(m)
    except ImportError:
        missing.append("python module " + m)
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("tools present")
