#!/usr/bin/env python3
"""python3 checks/run.py C07 : runs one check."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
import common
pid = sys.argv[1]
os.chdir(os.path.dirname(HERE))
common.main(pid, importlib.import_module(pid.lower()).run, level=getattr(importlib.import_module(pid.lower()), "LEVEL", "exploration"))
