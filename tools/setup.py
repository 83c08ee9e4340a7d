#!/usr/bin/env python3
"""Builds the extractor and the harness (every check does so too when they are missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
for f in (common.build_vx, common.build_harness):
    p, m = f()
    print(f.__name__, p, m)
    if p is None:
        sys.exit(1)
