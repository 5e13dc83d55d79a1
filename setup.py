#!/usr/bin/env python3
"""Warms the build caches (optional: every check builds what it needs)."""
import json, os, sys
sys.argv = ["check.py", "P01"]
import importlib.util
spec = importlib.util.spec_from_file_location("check", os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
m.build_engine()
m.build_harness("p01", "quick")
print("ready")
