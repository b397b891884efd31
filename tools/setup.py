#!/usr/bin/env python3
"""Builds the library and the replay driver once (checks rebuild when /repo changes)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import netlib
vlib.build_driver()
vlib.build_driver(extra_flags=('-DWITH_IO',))
netlib.net_driver()
for m in sorted(os.listdir(vlib.SPEC)):
    if m.endswith(".tla"):
        rc, out = vlib.sh(["java", "-cp", vlib.TLAJARS, "tla2sany.SANY", m], cwd=vlib.SPEC)
        if rc or "*** Errors" in out:
            print(out); sys.exit("specification module %s does not parse" % m)
print("ok")
