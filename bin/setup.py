#!/usr/bin/env python3
"""setup_cmd: compiles the driver once, so that the checks find its dependencies in the build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shutil, vlib
ctx = vlib.Ctx("setup", "quick", 1)
ctx.driver()
shutil.rmtree(ctx.work)
print("ok")
