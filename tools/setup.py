#!/usr/bin/env python3
"""Checks that the tools the harnesses need are present. Every check builds what it needs itself."""
import shutil, subprocess, sys, tempfile, os
missing = [t for t in ("g++", "python3") if shutil.which(t) is None]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "t.cc")
    open(src, "w").write("#include <vector>\nint main() { std::vector<int> v(3); return v[0]; }\n")
    subprocess.run(["g++", "-std=c++17", "-fsanitize=address", src, "-o", os.path.join(d, "t")], check=True)
    subprocess.run([os.path.join(d, "t")], check=True)
print("ok")
