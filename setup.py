#!/usr/bin/env python3
"""Prebuilds what the checks need (each check rebuilds by itself when /repo or /verif changed)."""
import glob, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/pbt')
import build
from concurrent.futures import ThreadPoolExecutor
build.lib()
with ThreadPoolExecutor(4) as ex:
    list(ex.map(build.prop_binary, sorted(os.path.basename(p)[:-3] for p in glob.glob(V + '/props/P*.cc'))))
if os.path.exists(V + '/pyprops/pybuild.py'):
    sys.path.insert(0, V + '/pyprops')
    import pybuild
    pybuild.bindings()
print('setup done')
