#!/usr/bin/env python3
"""setup_cmd: checks that the tools the monitors need exist. Nothing is built here: every check builds its own
monitors from /repo's current tree."""
import shutil, sys
missing = [t for t in ("clang++", "g++") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
