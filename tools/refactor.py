#!/usr/bin/env python3
"""Runs the checks against behaviour-preserving edits:  refactor.py [NAME...] [--only Cxx,Cyy]
The edits live in tools/refactors.py; every check has to stay quiet and the tests have to pass."""
import importlib.util, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = "/tmp/plant/refactor-%d" % os.getpid()
spec = importlib.util.spec_from_file_location("refactors", V + "/tools/refactors.py")
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
only = None
args = sys.argv[1:]
if "--only" in args:
    i = args.index("--only")
    only = args[i + 1].split(",")
    del args[i:i + 2]
checks = only or sorted(json.load(open(V + "/lib/config.json")))
for name, edits in m.REFACTORS.items():
    if args and name not in args:
        continue
    shutil.rmtree(TREE, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", TREE], check=True)
    for f, old, new in edits:
        p = os.path.join(TREE, "include/ieme", f)
        s = open(p).read() if os.path.exists(p) else ""
        if old:
            assert s.count(old) == 1, (name, f, s.count(old), old)
            s = s.replace(old, new)
        else:
            s += new
        open(p, "w").write(s)
    r = subprocess.run("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=g++ "
                       "-DCMAKE_CXX_FLAGS='-Wno-error -w' -DIEME_BUILD_TESTS=ON "
                       "-DCMAKE_PROJECT_Ieme_INCLUDE=/opt/vp/catch2-compat/catch2.cmake && ninja -C _build && mkdir -p rep && "
                       "python3 /opt/vp/run_catch.py $PWD/_build $PWD/rep; "
                       "python3 /opt/vp/results.py rep/out.json 'junit:rep/*.xml' lines:rep/crashed.txt",
                       shell=True, cwd=TREE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    res = json.load(open(TREE + "/rep/out.json")) if os.path.exists(TREE + "/rep/out.json") else None
    if not res or len(res["passed"]) < 187:
        print(name, "TESTS FAIL", r.stdout.decode()[-1500:] if not res else len(res["passed"]))
        continue
    shutil.rmtree(TREE + "/_build")
    for c in checks:
        t = time.time()
        r = subprocess.run(["python3", "run.py", c], cwd=V, env=dict(os.environ, IEME_REPO=TREE, IEME_OUT="/tmp/plant/out-refactor-%d" % os.getpid()),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace")
        print("%-20s %s %s %.0fs" % (name, c, "quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, time.time() - t), flush=True)
        if r.returncode:
            print(out[-1500:])
shutil.rmtree(TREE, ignore_errors=True)
