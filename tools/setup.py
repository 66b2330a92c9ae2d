#!/usr/bin/env python3
"""Nothing to install: every check builds what it needs from /repo. Checks
that the tools are there."""
import shutil
import sys

for t in ("g++", "ar", "pkg-config", "git"):
    if not shutil.which(t):
        print("missing: " + t)
        sys.exit(1)
print("ok")
