#!/usr/bin/env python3
"""usage: check.py <property> [--tier quick|thorough] [--only substring] [-v] [-j N]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
ap.add_argument("-v", action="store_true")
ap.add_argument("-j", type=int, default=8)
a = ap.parse_args()
from sa import run
sys.exit(run.main(a.property, a.tier, a.j, a.only, a.v))
