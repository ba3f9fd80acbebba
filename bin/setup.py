#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (each check compiles what it needs itself)."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import CXX, TLA, Ctx, java_classes
ok = all(shutil.which(x) for x in ("java", "javac", CXX)) and os.path.exists(f"{TLA}/tla2tools.jar")
c = Ctx("setup", "quick")
try:
    java_classes(c)
finally:
    c.close()
print("tools present" if ok else "a tool is missing")
sys.exit(0 if ok else 1)
