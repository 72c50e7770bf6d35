#!/usr/bin/env python3
"""Setup: builds the checks once, which fills the build cache, and tests the
reference model against its published vectors"""
import os, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
import run_check
with tempfile.TemporaryDirectory() as d:
    run_check.build("P01", d)
    run_check.build("P24", d, True)
r = subprocess.run(["go", "test", "./ref"], cwd=root + "/harness", env=run_check.env())
sys.exit(r.returncode)
