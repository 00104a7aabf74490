#!/usr/bin/env python3
"""Sanity of the environment: the tools every check needs are present.

Checks build everything they need themselves, from /repo's current tree, in a
scratch directory of their own."""
import os
import shutil
import sys

need = ["java", "g++", "python3"]
missing = [n for n in need if not shutil.which(n)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ok")
