#!/usr/bin/env python3
"""run.py <property id> [--thorough] [--only CASE]: runs the check of one property."""
import os, sys, runpy
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
os.chdir(V)
runpy.run_path(os.path.join(V, "checks", sys.argv[1].lower() + ".py"), run_name="__main__")
