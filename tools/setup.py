#!/usr/bin/python3
"""Prebuild /repo and the harnesses (the checks rebuild whatever has changed since)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
for v in ("opt", "asan"):
    print(vlib.build(v))
