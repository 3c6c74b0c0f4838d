#!/usr/bin/env python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--only TASK] [--replay FILE] [-v]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
ap.add_argument("--only")
ap.add_argument("--replay")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
prop = a.property.upper()

import aemon.env  # noqa: E402,F401
from aemon import runner  # noqa: E402

mod = importlib.import_module("aemon.checks." + prop.lower())
if a.replay:
    sys.exit(runner.replay(prop, mod, a.replay))
sys.exit(runner.run(prop, mod, a.tier, a.seed, a.only, verbose=a.v))
