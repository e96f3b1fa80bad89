#!/usr/bin/env python3
"""Nothing has to be built ahead of the checks (each builds what it needs from /repo's
working tree); verify that the compilers and sanitizer runtimes they use are there."""
import subprocess, sys, tempfile, os
ok = True
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("int main(){return 0;}\n")
    for cmd in (["clang++", "-fsanitize=address,undefined"], ["clang++", "-fsanitize=thread"], ["g++", "-fopenmp"]):
        r = subprocess.run(cmd + [src, "-o", os.path.join(d, "a")], capture_output=True, text=True)
        if r.returncode or subprocess.run([os.path.join(d, "a")]).returncode:
            print("cannot use", cmd, r.stderr)
            ok = False
sys.exit(0 if ok else 1)
