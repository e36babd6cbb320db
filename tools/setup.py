#!/usr/bin/env python3
"""Nothing to install: every check builds the compiler from /repo itself. Only confirms that the tools are there."""
import shutil
import sys
miss = [t for t in ("g++", "gcc", "flex", "bison", "objcopy") if not shutil.which(t)]
print("missing: " + " ".join(miss) if miss else "tools present")
sys.exit(1 if miss else 0)
