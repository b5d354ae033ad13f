#!/usr/bin/env python3
"""Nothing is prebuilt (checks compile from /repo's current tree); verify that the tools are there."""
import shutil, sys, os
ok = all(shutil.which(t) for t in ("java", "clang++-18", "python3")) and os.path.exists("/opt/veriftools/tla/tla2tools.jar")
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
