#!/usr/bin/env python3
"""Runs checks against the planted bugs, on a scratch copy:  detect.py [--all] [--prop Cxx] [ID...]
--all: every check, not only the one of the bug's property.  Appends to tools/detection.tsv."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = "/tmp/plant/detect-%d" % os.getpid()
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
checks = sorted(json.load(open(V + "/lib/config.json")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    shutil.rmtree(TREE, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", TREE], check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=TREE, check=True)
    for c in (checks if "--all" in sys.argv else [prop]):
        t = time.time()
        r = subprocess.run(["python3", "run.py", c], cwd=V, env=dict(os.environ, IEME_REPO=TREE, IEME_OUT="/tmp/plant/out-detect-%d" % os.getpid()),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace")
        hit = r.returncode == 1 and "VIOLATION property=%s" % c in out
        print("%-28s %s %s rc=%d %.0fs %s" % (i, c, "CAUGHT" if hit else "missed", r.returncode, time.time() - t,
              "" if not hit else out.splitlines()[0][:140]), flush=True)
        if not hit and r.returncode:
            print(out[-1500:])
shutil.rmtree(TREE, ignore_errors=True)
shutil.rmtree("/tmp/plant/out-detect-%d" % os.getpid(), ignore_errors=True)
