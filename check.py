#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: runs one property's check (see DESIGN.md)."""
import importlib, os, sys
os.environ["VERIF_TIER"] = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf
prop = sys.argv[1]
try:
    mod = importlib.import_module(prop.lower())
    sys.exit(mod.run())
except vf.CheckError as e:
    print("CHECK-ERROR property=%s: %s" % (prop, e))
    sys.exit(2)
