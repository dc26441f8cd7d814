#!/usr/bin/env python3
"""Builds the analysers (the checks build them on demand as well)."""
import os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
for f in sorted(glob.glob(os.path.join(core.VERIF, 'engine', '*.cpp'))):
    print(core.build_tool(os.path.splitext(os.path.basename(f))[0]))
