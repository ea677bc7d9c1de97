#!/usr/bin/env python3
"""Nothing to install: each check builds its own harness.  Confirms the toolchain is there."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from harnesses import CXX, BASE_FLAGS
with tempfile.TemporaryDirectory() as d:
    s = os.path.join(d, "a.cpp")
    open(s, "w").write("#include <fmt/format.h>\nint main(){ return fmt::format(\"{}\", 1) != \"1\"; }\n")
    subprocess.run([CXX] + BASE_FLAGS + [s, "-lfmt", "-o", os.path.join(d, "a")], check=True)
    subprocess.run([os.path.join(d, "a")], check=True)
print("toolchain ok")
