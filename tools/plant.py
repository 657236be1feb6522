#!/usr/bin/env python3
"""Verifies planted bugs and stores them as /verif/seeded/<id>/.

plant.py FILE.py [ID...]   FILE.py defines BUGS: list of dicts
   id, property, edits=[(header, old, new)], demo (C++ statements, CHECK(cond)), needs, breaks,
   optional: pre (C++ before main), sh (demo script instead), includes
"""
import importlib.util, json, os, re, shutil, subprocess, sys

SCRATCH = "/tmp/plant/tree"
OUT = "/verif/seeded"
CXX = "g++ -std=c++20 -w -O1"


def sh(cmd, cwd=SCRATCH, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def prepare():
    if not os.path.exists(SCRATCH):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.run("git clone -q /repo " + SCRATCH, shell=True, check=True)
        r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=g++ "
               "-DCMAKE_CXX_FLAGS='-Wno-error -w' -DIEME_BUILD_TESTS=ON "
               "-DCMAKE_PROJECT_Ieme_INCLUDE=/opt/vp/catch2-compat/catch2.cmake")
        assert r.returncode == 0, r.stdout.decode()
    sh("git fetch -q origin && git reset -q --hard origin/HEAD")


def tests_pass():
    r = sh("ninja -C _build")
    if r.returncode:
        return False, r.stdout.decode()[-1500:]
    r = sh("printf '#include <cstring>\\n#include <ieme/ieme.hpp>\\n#include <ieme/numbers.hpp>\\n' | "
           "g++ -std=c++20 -fsyntax-only -Iinclude -x c++ -")
    if r.returncode:
        return False, "umbrella: " + r.stdout.decode()[-800:]
    sh("rm -rf rep && mkdir rep && python3 /opt/vp/run_catch.py $PWD/_build $PWD/rep; "
       "python3 /opt/vp/results.py rep/out.json 'junit:rep/*.xml' lines:rep/crashed.txt")
    res = json.load(open(SCRATCH + "/rep/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("passed") or base.get("stable") or base.get("tests") or base
    if isinstance(want, dict):
        want = list(want)
    miss = set(want) - set(res["passed"])
    sh("rm -rf rep")
    return not miss, "failing tests: %s" % sorted(miss)[:6]


DEMO_SH = """#!/bin/bash
# exit 0: the property holds for the inputs of demo.cpp (run with cwd = the repository)
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -w -O1 -I include %(flags)s "$here/demo.cpp" -o "$tmp/demo" || exit 1
timeout 60 "$tmp/demo"
"""
DEMO_CPP = """%(includes)s
#include <cstdio>

using namespace ieme;

static int failures = 0;
#define CHECK(...) \\
  do { if (!(__VA_ARGS__)) { ++failures; std::printf("line %%d: %%s\\n", __LINE__, #__VA_ARGS__); } } while (0)

%(pre)s
int main()
{
%(demo)s
  return failures != 0;
}
"""


def blame_ok(diff):
    """Every removed line belongs to the base commit."""
    files, bad = {}, []
    cur, line = None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        m = re.match(r"@@ -(\d+)(?:,\d+)? \+", l)
        if m:
            line = int(m.group(1))
            continue
        if cur and l.startswith("-") and not l.startswith("---"):
            b = subprocess.run("git blame -s -L %d,%d HEAD -- %s" % (line, line, cur), shell=True, cwd="/repo",
                               stdout=subprocess.PIPE).stdout.decode()
            if not re.match(r"\^?c355de0|\^", b):
                bad.append(l)
            line += 1
        elif cur and not l.startswith("+") and not l.startswith("\\"):
            line += 1
    return bad


def plant(bug):
    sh("git reset -q --hard && git clean -fdq include src")
    for f, old, new in bug["edits"]:
        p = os.path.join(SCRATCH, "include/ieme", f)
        if old is None:  # a new file
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(new)
            sh("git add -N include src")
            continue
        s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times: %r" % (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout.decode()
    d = os.path.join("/tmp/plant", bug["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    inc = "\n".join("#include <%s>" % i for i in bug.get("includes", ["ieme/ieme.hpp"]))
    if bug.get("sh"):
        open(d + "/demo.sh", "w").write(bug["sh"])
        for n, t in bug.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
    else:
        open(d + "/demo.sh", "w").write(DEMO_SH % {"flags": bug.get("flags", "")})
        open(d + "/demo.cpp", "w").write(DEMO_CPP % {"includes": inc, "pre": bug.get("pre", ""), "demo": bug["demo"]})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    bad = blame_ok(diff)
    removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if bad:
        return "changes lines of fix commits: %r" % bad
    if not removed:
        return "only adds lines"
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout.decode()[-1200:]
    r = sh("bash %s/demo.sh" % d, timeout=300)
    if r.returncode == 0:
        return "demo passes with the bug"
    msg = r.stdout.decode()[:300]
    ok, why = tests_pass()
    if not ok:
        return "tests: " + why
    dst = os.path.join(OUT, bug["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print("   ", msg.strip().replace("\n", " | ")[:200])
    return None


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    prepare()
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        if len(sys.argv) == 2 and os.path.exists(os.path.join(OUT, b["id"])):
            continue
        r = plant(b)
        print(b["id"], "OK" if r is None else "REJECTED " + r, flush=True)


main()
