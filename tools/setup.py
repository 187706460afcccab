#!/usr/bin/env python3
"""Checks that the tools the checks need are present (each check builds itself)."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing: print("missing:", missing); sys.exit(1)
print("ok")
