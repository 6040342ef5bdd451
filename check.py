#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property from /repo's current source (see DESIGN.md)"""
import os, sys, importlib
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "checks")]
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"      # set iteration order must not vary between runs
    os.execv(sys.executable, [sys.executable] + sys.argv)
import runner
m = importlib.import_module(sys.argv[1].lower())
sys.exit(runner.run(sys.argv[1], m.run, getattr(m, "LEVEL", "other"), getattr(m, "TRUSTED", ())))
