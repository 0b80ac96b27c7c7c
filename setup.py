#!/usr/bin/env python3
"""Warm the build cache: compile every monitor once (the checks rebuild anyway)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
for pid, cfg in run.PROPS.items():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        run.build(work, cfg, pid)
    except SystemExit:
        print("setup: the monitor of %s does not build against this tree" % pid)
    finally:
        shutil.rmtree(work, ignore_errors=True)
print("setup done")
