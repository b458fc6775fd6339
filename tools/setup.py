#!/usr/bin/env python3
"""Sanity check of the environment: Go, Postgres and the harness build."""
import shutil, subprocess, sys, tempfile, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
scratch = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
try:
    out, skipped = check.build(scratch, check.go_env(), False)
    print("harness builds", skipped)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
