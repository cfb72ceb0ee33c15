#!/usr/bin/env python3
"""setup_cmd: nothing to fetch; verifies that the tools the checks use are there."""
import os, shutil, sys
need = ["cmake", "ninja", "g++", "java"]
miss = [n for n in need if not shutil.which(n)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    miss.append("tla2tools.jar")
if miss:
    print("missing tools:", miss)
    sys.exit(1)
print("ok")
