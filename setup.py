#!/usr/bin/env python3
"""Checks that the tools the checks need are there, builds the shim and parses every specification."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib")]
import nexo
nexo.build()
bad = 0
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(f, "ok" if r.returncode == 0 else r.stdout[-2000:]); bad |= r.returncode
sys.exit(1 if bad else 0)
