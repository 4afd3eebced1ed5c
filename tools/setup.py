#!/usr/bin/env python3
"""Prebuilds the operator overrides and the harnesses (every check builds whatever is missing or stale itself)."""
import glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vf
vf.java_classes()
try:
    for f in sorted(glob.glob(os.path.join(V, "harness/*.cxx"))):
        vf.harness(os.path.basename(f)[:-4])
except vf.MachineryError as e:
    print(e)
