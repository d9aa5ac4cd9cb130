#!/usr/bin/env python3
"""Sanity check of the tools the checks need; the checks build what they need themselves."""
import shutil
import sys
missing = [t for t in ("gcc", "g++", "clang", "clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")
