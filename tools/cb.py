#!/usr/bin/env python3
"""dev helper: cb.py HARNESS [extra cbmc opts]  -- build and run cbmc with plain text output"""
import sys, os, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, registry
h = registry.HARNESSES[sys.argv[1]]
work = "/tmp/cb-" + h.name
shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
src = check.stage(h, work)
gb = check.compile_all(h, work, src, "goto-cc", ["-O0"], False)
cmd = [c for c in check.cbmc_cmd(h, gb, 1) if c not in ("--json-ui", "--trace")] + sys.argv[2:]
print(" ".join(cmd)); sys.stdout.flush()
os.execvp("timeout", ["timeout", os.environ.get("T", "60")] + cmd)
