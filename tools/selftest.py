#!/usr/bin/env python3-vt
"""setup_cmd: the framework is Python and needs no build; check that its tools are there"""
import os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/engine", H + "/checks"]
import z3, numpy, sx, link, lib, check, registry
for t in ("clang-18", "/usr/bin/opt", "g++", "cvc5"):
    subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
for p in registry.MODS: registry.get(p)
print("framework ready: %d checks" % len(registry.MODS))
