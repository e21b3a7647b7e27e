#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds from /repo's working tree.  This only checks the tools."""
import os
import shutil
import sys

for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
for lib in ("/usr/include/openssl/evp.h",):
    if not os.path.exists(lib):
        sys.exit("missing " + lib)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
