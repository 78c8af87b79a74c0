#!/usr/bin/env python3
"""Check that the monitors build here offline (checks rebuild what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run
try:
    run.build("default", ["c14"])
    run.build("stdsc", ["c14"])
except run.NoAnswer as e:
    sys.exit(str(e))
