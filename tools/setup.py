#!/usr/bin/env python3
"""Warms the build directories (checks rebuild whatever is missing or stale themselves)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import vlib
vlib.build("asan")
vlib.build("plain")
vlib.build("sched")
