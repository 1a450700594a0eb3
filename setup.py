#!/usr/bin/env python3
"""Checks that the tools the monitors need are there; every check builds what it needs itself, from /repo."""
import shutil, subprocess, sys
for t in ("cargo", "gcc", "g++", "ar"):
    if not shutil.which(t, path="/root/.cargo/bin:/usr/local/bin:/usr/bin"):
        print("missing", t)
        sys.exit(1)
print("ok")
