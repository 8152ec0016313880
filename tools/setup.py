#!/usr/bin/env python3
"""One-time preparation: checks that the tools are there. Every check builds what it needs itself."""
import shutil, sys, os
missing = [t for t in ("g++", "ninja", "java", "mpirun") if not shutil.which(t)]
if missing or not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    print("missing:", missing); sys.exit(1)
print("ok")
