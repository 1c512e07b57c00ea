#!/usr/bin/env python3-vt
"""run.py <property id> [quick|thorough]"""
import sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "engine")); sys.path.insert(0, os.path.join(H, "checks"))
sys.setrecursionlimit(20000)
import registry
pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(registry.get(pid).main(tier))
