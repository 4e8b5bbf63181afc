#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [extra options of the harness]

Builds harness/<property>.cpp against the working tree of the repository and
runs it.  Exit 0: held on everything explored; 1: a VIOLATION line was printed.
"""
import os, subprocess, sys, json, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

SAN = ["-fsanitize=address,signed-integer-overflow,bounds,return,integer-divide-by-zero",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

# some cheap checks take more cases than their tests state
QUICK_MULT = {"A02": 10, "C01": 10, "C02": 10, "C03": 6, "D01": 2, "F01": 3, "F02": 2, "G01": 6,
              "G02": 8, "G03": 8, "K01": 2, "R02": 3, "S01": 8, "S02": 8}

def build(prop, out):
    src = os.path.join(HERE, "harness", prop + ".cpp")
    cmd = ["g++", "-std=c++14", "-O1", "-g1", "-pthread", "-w"] + SAN + [
        "-DVF_COVERAGE", "-fsanitize-coverage=trace-pc",
        "-I", REPO + "/src", "-I", HERE + "/harness", "-I", HERE + "/harness/stubs",
        '-DVF_REPO="%s"' % REPO, "-o", out, src]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = os.environ.get("VERIF_SEED", "1")
    bdir = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    exe = os.path.join(bdir, prop + ".bin")
    t0 = time.time()
    r = build(prop, exe)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("check.py: the harness does not build")
        return 2
    print("built in %.1f s" % (time.time() - t0), flush=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    cmd = [exe, "--property", prop, "--tier", tier, "--seed", seed, "--evidence", ev,
           "--replays", os.path.join(HERE, "replays"),
           "--known", os.path.join(HERE, "known_findings.txt")] + sys.argv[3:]
    if tier == "quick" and prop in QUICK_MULT and "--mult" not in cmd and "--replay" not in cmd:
        cmd += ["--mult", str(QUICK_MULT[prop])]
    return subprocess.run(cmd).returncode

sys.exit(main())
