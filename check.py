#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decide one property of nexo (see DESIGN.md)."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, d) for d in ("lib", "drivers", "checks")]
sys.dont_write_bytecode = True
import framework
REG = {}
for m in ("queue", "stream", "pubsub", "store", "conn", "inspect"):
    if os.path.exists(os.path.join(V, "checks", m + "_checks.py")):
        REG.update(__import__(m + "_checks").CHECKS)
if __name__ == "__main__":
    if sys.argv[1:] == ["--list"]: print(" ".join(sorted(REG))); sys.exit(0)
    sys.exit(framework.main(REG, sys.argv[1:]))
