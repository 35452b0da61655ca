#!/usr/bin/env python3
"""builds the library and all harnesses (the checks do it themselves if this has not run)"""
import subprocess, sys, os
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
ids = sorted(props.CHECKS)
bad = []
def one(i):
    return i, subprocess.call([os.path.join(V, "check"), i, "--build-only"])
# one of each flavour first: it builds the library
seen = set()
for i in ids:
    fl = props.CHECKS[i].get("flavour", "asan")
    if fl not in seen:
        seen.add(fl)
        if one(i)[1]: bad.append(i)
with ThreadPoolExecutor(8) as ex:
    for i, rc in ex.map(one, ids):
        if rc: bad.append(i)
print("built %d checks" % (len(ids) - len(set(bad))))
sys.exit(1 if bad else 0)
