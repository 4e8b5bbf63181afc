#!/usr/bin/env python3
"""mutate.py <file with MUTANTS> : which mutants does a check miss?

The file defines MUTANTS = [(property, file, old, new), ...].  Every mutant is applied to a scratch copy of
/repo's src and config, its quick check is run there.  Mutants don't have to keep the repository's tests quiet.
"""
import os, subprocess, sys, shutil, tempfile, runpy, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(m):
    prop, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for x in ("src", "config", "launch"): shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/" + x, d + "/" + x)
        s = open(d + "/" + f).read()
        if s.count(old) < 1: return m, "NOT FOUND", ""
        open(d + "/" + f, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + "/b", VERIF_SEED="1")
        shutil.copytree(V, d + "/v", ignore=shutil.ignore_patterns(".git", "build", "evidence", "replays", "seeded"))
        r = subprocess.run(["timeout", "900", "python3", d + "/v/check.py", prop, "quick", "--jobs", "4"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = [l for l in r.stdout.split("\n") if re.match(r"test .* fails", l)]
        if r.returncode == 2: return m, "NO BUILD", r.stdout[-800:]
        return m, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, t[0] if t else ""
    finally:
        shutil.rmtree(d)
ms = runpy.run_path(sys.argv[1])["MUTANTS"]
with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
    for m, res, t in ex.map(run, ms):
        print("%-8s %s %s: %s -> %s   %s" % (res, m[0], m[1].split("/")[-1], m[2].strip()[:60], m[3].strip()[:60], t), flush=True)
