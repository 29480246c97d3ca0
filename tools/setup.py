#!/usr/bin/env python3
"""Checks that the tools the framework needs are present; nothing has to be built beforehand."""
import subprocess, sys, os
for t in ("cbmc", "goto-cc", "goto-instrument", "gcc"):
    r = subprocess.run([t, "--version"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        print("missing tool:", t); sys.exit(1)
    print(t, r.stdout.decode().splitlines()[0])
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
