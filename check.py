#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import harness  # noqa: E402
import props  # noqa: E402

if __name__ == "__main__":
    p = sys.argv[1]
    sys.exit(harness.main(p, getattr(props, p.lower())))
