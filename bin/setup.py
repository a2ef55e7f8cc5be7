#!/usr/bin/env python3
"""Builds every harness once, so that the build cache is warm."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, checks
tmp = tempfile.mkdtemp(prefix="verif-setup-")
rc = 0
try:
    for k in sorted({s["kind"] for c in checks.CHECKS.values() for s in c["stages"]}):
        try:
            check.build(k, tmp, check.goenv(tmp))
            print("built", k)
        except check.CheckError as e:
            print(e)
            rc = 1
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
