#!/usr/bin/env python3
"""Builds every checker once, so that a broken sandbox shows early; the checks rebuild what they need."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from catalog import CATALOG
seen = set()
for p, c in CATALOG.items():
    key = (c.get("flavour", "plain"), tuple(c["modules"]), tuple(c.get("tools", ())))
    if key in seen:
        continue
    seen.add(key)
    w = tempfile.mkdtemp(prefix="dtx-build-")
    try:
        build.build(w, key[0], c["modules"], c.get("tools", ()))
    except build.BuildError as e:
        print(e)
        sys.exit(1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
print("built %d checkers" % len(seen))
