#!/usr/bin/env python3
"""Setup: checks that the toolchain is there and self-tests the engine.

The harnesses themselves are compiled by check.py from the working tree of
/repo at every run (they are header-only consumers of it), so nothing built
here can go stale."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
bdir = os.path.join(HERE, "build")
os.makedirs(bdir, exist_ok=True)
exe = os.path.join(bdir, "selftest.bin")
subprocess.check_call(["g++", "-std=c++14", "-O1", "-g1", "-pthread", "-w",
    "-fsanitize=address", "-DVF_COVERAGE", "-fsanitize-coverage=trace-pc",
    "-I", os.path.join(HERE, "harness"), "-o", exe, os.path.join(HERE, "harness", "selftest.cpp")])
def run(test):
    r = subprocess.run([exe, "--property", "X00", "--test", test, "--replays",
                        os.path.join(bdir, "selftest-replays")], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    return r.returncode, r.stdout
for t in ("assertion_like", "crashing", "rare_branch"):
    code, out = run(t)
    if code != 1 or "VIOLATION property=X00 replay=" not in out:
        print("engine self-test failed:", t, code, out); sys.exit(1)
code, out = run("fine")
if code != 0:
    print("engine self-test failed: fine", code, out); sys.exit(1)
print("engine self-test passed")
