#!/usr/bin/env python3
"""Builds every harness of every flavour once, so that checks only rebuild
what a change in /repo touched."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS
by = {}
for p in PROPS.values():
    for r in p["runs"]:
        by.setdefault(r.get("flavour", "asan"), set()).add(r["harness"])
for fl, hs in sorted(by.items()):
    print(fl, vbuild.build(fl, sorted(hs)))
