"""Builds and runs the checks.  See run.py."""
import concurrent.futures
import hashlib
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IEME_REPO", "/repo")
OUT = os.environ.get("IEME_OUT", VERIF)  # build, replays, evidence
INCLUDE = os.path.join(REPO, "include")
CXX = "g++"
CXXFLAGS = ["-std=c++20", "-O1", "-w", "-fno-gnu-unique"]
JOBS = 8

# The library is used with other options than one's own: the parts of a harness take turns.
VARIANTS = [[], ["-DNDEBUG", "-O2"], ["clang++", "-O2"], ["-O3", "-DNDEBUG", "-funsigned-char"], ["-std=c++23"]]

# parts: number of translation units of the harness (-DPART=i)
# cases: generated cases (quick, thorough)
CONFIG = json.load(open(os.path.join(VERIF, "lib", "config.json")))


class HarnessError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b"") + b"\n[timed out]\n")


def header_constants():
    """Integer constants written in the headers, for the generators."""
    vals = set()
    for root, _, files in os.walk(INCLUDE):
        for f in sorted(files):
            if not f.endswith((".hpp", ".h", ".ipp", ".inl")):
                continue
            text = open(os.path.join(root, f), errors="replace").read()
            text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)[uUlLzZ]*(?![\w.])", text):
                t = m.group(1).replace("'", "")
                try:
                    v = int(t, 0) if not re.fullmatch(r"0\d+", t) else int(t, 8)
                except ValueError:
                    continue
                if v < 2 ** 64:
                    vals.add(v)
            for m in re.finditer(r"<<\s*(\d+)", text):
                if int(m.group(1)) < 64:
                    vals.add(1 << int(m.group(1)))
    return sorted(vals)[:4000] or [0]


def header_words():
    """String literals written in the headers."""
    words = set()
    for root, _, files in os.walk(INCLUDE):
        for f in sorted(files):
            if f.endswith((".hpp", ".h", ".ipp", ".inl")):
                text = open(os.path.join(root, f), errors="replace").read()
                text = re.sub(r"//[^\n]*|/\*.*?\*/|#\s*include[^\n]*", " ", text, flags=re.S)
                words.update(re.findall(r'"([ !#-\[\]-~]{1,40})"', text))
    return sorted(words)[:1000]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = dict(CONFIG[pid])
        scale = float(os.environ.get("IEME_SCALE", "1"))  # for tools/mutate.py
        if scale != 1:
            for k in ("cases", "batches"):
                if k in self.cfg:
                    self.cfg[k] = [max(8, int(n * scale)) for n in self.cfg[k]]
        self.t0 = time.time()
        self.build = os.path.join(OUT, "build", pid)
        self.replays = os.path.join(OUT, "replays")
        self.violations = []       # replay paths
        self.known = []
        self.known_list = self.read_known()
        self.coverage = {}

    # --- files -------------------------------------------------------------
    def read_known(self):
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) sub=(\S+) match=(.*)$", line.strip())
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3)))
        return res

    def prepare(self):
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(self.pid + "-") or f.startswith(self.pid + "."):
                os.remove(os.path.join(self.replays, f))
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(self.build, "dict.inc"), "w") as f:
            f.write("static const unsigned long long dict_values[] = {%s};\n"
                    % ",".join("%dULL" % v for v in header_constants()))
            f.write("static const char* const dict_texts[] = {%s};\n"
                    % ",".join('"%s"' % w for w in header_words() + [""]))

    # --- reporting ---------------------------------------------------------
    def violation(self, name, text, message):
        """Records a violation (or a known finding)."""
        for sub, match in self.known_list:
            if (sub == "*" or name.startswith(sub)) and match in text:
                self.known.append("%s %s" % (name, message))
                return
        path = os.path.join(self.replays, "%s-%d.replay" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            f.write(text)
        self.violations.append(path)
        print("%s: %s: %s" % (self.pid, name, message))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()

    def finish(self):
        cov = self.coverage
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov.setdefault("rule", "")
        cov.setdefault("samples", [])
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "exploration", "coverage": cov,
            "assumptions": self.cfg.get("assumptions", [
                "the generators reach the inputs that matter; nothing is proved",
                "g++ and the reference model in /verif/lib are correct"]),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations)}
        path = os.path.join(OUT, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        n = cov["evaluations"]
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s"
              % (self.pid, self.tier, self.seed, n, cov["distinct_nontrivial"],
                 len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    # --- compiling ---------------------------------------------------------
    def compile_many(self, jobs):
        """jobs: list of (source, object, flags).  Returns list of (job, log) that failed."""
        def one(job):
            src, obj, flags = job
            cxx, base = CXX, CXXFLAGS
            if "clang++" in flags:
                cxx, base = "clang++", [x for x in CXXFLAGS if x != "-fno-gnu-unique"]
                flags = [x for x in flags if x != "clang++"]
            cmd = [cxx] + base + ["-I", os.path.join(VERIF, "lib"), "-I", self.build,
                                  "-I", INCLUDE] + flags + ["-c", src, "-o", obj]
            for attempt in range(3):
                r = sh(cmd)
                if r.returncode == 0:
                    return None
                log = r.stdout.decode(errors="replace")
                if "error:" in log:
                    break
                time.sleep(1)
            if cxx != CXX and "error:" in log and self.toolchain_ok():
                # refused by the second compiler only: its limits, not a broken facility
                r = sh([CXX] + CXXFLAGS + cmd[1 + len(base):])
                if r.returncode == 0:
                    self.coverage["refused by the second compiler only"] = log[:400]
                    return None
                log = r.stdout.decode(errors="replace")
            return (job, log)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return [x for x in ex.map(one, jobs) if x]

    def isolate(self, objects):
        """Each object keeps its own instances of the library's functions (they are compiled with
        different options); where that does not work, the linker picks one."""
        def one(o):
            a, b = o + ".r", o + ".l"
            if sh(["ld", "-r", "--force-group-allocation", "-o", a, o]).returncode == 0 \
                    and sh(["objcopy", "-w", "--localize-symbol=_Z*", a, b]).returncode == 0:
                os.replace(b, o)
            for f in (a, b):
                if os.path.exists(f):
                    os.remove(f)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, objects))

    def toolchain_ok(self):
        src = os.path.join(self.build, "sanity.cpp")
        with open(src, "w") as f:
            f.write("#include <numeric>\n#include <string>\nint main() { return int(std::gcd(4, 6)) - 2; }\n")
        exe = os.path.join(self.build, "sanity")
        return sh([CXX] + CXXFLAGS + [src, "-o", exe]).returncode == 0 and sh([exe]).returncode == 0

    def build_harness(self):
        parts = self.cfg.get("parts", 1)
        flags = self.cfg.get("flags", [])
        sources = self.cfg.get("sources" if self.tier == "quick" else "sources_thorough")
        if sources:  # the harnesses of other properties
            units = [(n, i, ['-DPBT_PREFIX="%s.%d"' % (n, i)]) for n, parts in sources for i in parts]
        else:
            units = [(self.pid, i, []) for i in range(parts)]
        if not flags and not sources:
            # every part in one variant; few parts in two
            units = [(n, i, VARIANTS[i % len(VARIANTS)] + more) for n, i, more in units] + [
                (n, i, VARIANTS[(i + 2 - i % 2) % len(VARIANTS)] + ['-DPBT_PREFIX="again"'])
                for n, i, more in units if parts < 4]
        lib = [(os.path.join(VERIF, "lib", n + ".cpp"), os.path.join(self.build, n + ".o"),
                self.cfg.get("engine_flags", []))
               for n in ["pbt", "dict"] + self.cfg.get("lib", [])]
        if self.compile_many(lib):
            raise HarnessError("cannot compile the engine: %r" % (self.compile_many(lib)[0][1][:2000],))
        jobs = [(os.path.join(VERIF, "checks", n + ".cpp"), os.path.join(self.build, "%s_%d_%d.o" % (n, i, k)),
                 ["-DPART=%d" % i, "-DTIER_%s=1" % self.tier.upper()] + flags + more)
                for k, (n, i, more) in enumerate(units)]
        bad = self.compile_many(jobs)
        if bad:
            log = bad[0][1]
            if "error:" not in log or not self.toolchain_ok():
                raise HarnessError("compiler failure: " + log[:2000])
            first = next((x for x in log.splitlines() if "error:" in x), "")
            self.violation("build", "mode=compile\npart=%s\nproperty=%s\n%s" % (bad[0][0][2], self.pid, log[:20000]),
                           "the public interface used by this property does not compile: " + first)
            return None
        if not flags:
            self.isolate([j[1] for j in jobs])
        exe = os.path.join(self.build, "harness")
        r = sh([CXX] + [j[1] for j in lib + jobs] + ["-o", exe] + self.cfg.get("link_flags", []))
        if r.returncode:
            log = r.stdout.decode(errors="replace")
            if not self.toolchain_ok():
                raise HarnessError("link failure: " + log[:2000])
            self.violation("link", "mode=compile\nproperty=%s\n%s" % (self.pid, log[:20000]),
                           "the harness does not link: " + log[:300])
            return None
        if "-fsanitize=thread" in flags and any(sh([exe, "list"]).returncode for _ in range(3)):
            # the sanitizer's runtime does not start here: the results are still compared
            self.coverage["sanitizer"] = "not available"
            self.cfg.update(flags=[], engine_flags=["-DPBT_NO_RLIMIT"], link_flags=["-pthread"])
            return self.build_harness()
        return exe

    # --- running -----------------------------------------------------------
    def run_harness(self):
        exe = self.build_harness()
        if not exe:
            self.coverage.update(evaluations=1, distinct_nontrivial=1,
                                 rule="compiling the harness against the tree",
                                 samples=["compilation of the harness failed"])
            return
        n = self.cfg["cases"][0 if self.tier == "quick" else 1]
        out = os.path.join(self.build, "result.json")
        r = sh([exe, "run", "--seed", str(self.seed), "--cases", str(n), "--workers", str(JOBS),
                "--budget", "400" if self.tier == "quick" else "9000",
                "--out", out, "--dir", self.build], timeout=14000)
        if r.returncode or not os.path.exists(out):
            raise HarnessError("harness failed: rc=%s %s" % (r.returncode, r.stdout[-2000:].decode(errors="replace")))
        res = json.load(open(out))
        self.coverage.update({k: res[k] for k in
                              ("evaluations", "distinct_nontrivial", "rule", "samples",
                               "discarded", "streams_cut_short_by_time", "labels")})
        if self.cfg.get("rule"):
            self.coverage["rule"] = self.cfg["rule"]
        self.coverage["subproperties"] = len(res["subproperties"])
        fails = []
        for f in os.listdir(self.build):
            if re.match(r"w\d+\.fail\.", f):
                text = open(os.path.join(self.build, f)).read()
                ch = re.search(r"^choices=(.*)$", text, re.M).group(1).split()
                fails.append((len(ch), [int(x) for x in ch], text))
        fails.sort(key=lambda x: (x[0], x[1], x[2]))
        seen, reported = set(), 0
        for _, _, text in fails:
            sub = re.search(r"^sub=(.*)$", text, re.M).group(1)
            if sub in seen:
                continue
            seen.add(sub)
            if reported >= 4:
                break
            text = "property=%s\ntier=%s\n" % (self.pid, self.tier) + text
            message = (re.search(r"^# failure: (.*)$", text, re.M) or [None, ""])[1]
            if self.reproduces(exe, text):
                reported += 1
                self.violation(sub, text, message)
            else:
                # depends on the cases before it: replay the whole stream
                t2 = "mode=stream\n" + text
                if self.reproduces(exe, t2, times=2):
                    reported += 1
                    self.violation(sub, t2, message + " (after the preceding cases)")
                else:
                    print("%s: not reproducible, ignored: %s: %s" % (self.pid, sub, message))

    def reproduces(self, exe, text, times=3):
        p = os.path.join(self.build, "candidate.replay")
        with open(p, "w") as f:
            f.write(text)
        return all(sh([exe, "replay", p], timeout=600).returncode == 1 for _ in range(times))

    def main(self):
        try:
            self.prepare()
            if self.cfg.get("cpp", True):
                self.run_harness()
            if self.cfg.get("gen"):
                path = os.path.join(VERIF, "gen", self.cfg["gen"] + ".py")
                sys.path.insert(0, os.path.join(VERIF, "gen"))
                spec = importlib.util.spec_from_file_location("gen_" + self.cfg["gen"], path)
                mod = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(mod)
                mod.run(self)
            rc = self.finish()
        except HarnessError as e:
            print("%s: check error: %s" % (self.pid, e))
            return 2
        if not os.environ.get("KEEP_BUILD"):
            shutil.rmtree(self.build, ignore_errors=True)
        return rc


def replay(path):
    """Re-runs a replay file against the current tree: 1 if it still fails."""
    text = open(path).read()
    pid = re.search(r"^property=(\S+)", text, re.M).group(1)
    tier = (re.search(r"^tier=(\S+)", text, re.M) or [None, "quick"])[1]
    c = Check(pid, tier, 1)
    c.build += ".replay"
    keep = open(path).read()
    c.prepare_replay = True
    shutil.rmtree(c.build, ignore_errors=True)
    os.makedirs(c.build)
    with open(os.path.join(c.build, "dict.inc"), "w") as f:
        f.write("static const unsigned long long dict_values[] = {%s};\n"
                % ",".join("%dULL" % v for v in header_constants()))
    if "mode=program" in keep:
        mod_path = os.path.join(VERIF, "gen", c.cfg["gen"] + ".py")
        sys.path.insert(0, os.path.join(VERIF, "gen"))
        spec = importlib.util.spec_from_file_location("gen_" + c.cfg["gen"], mod_path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod.replay(c, keep)
    exe = c.build_harness()
    if not exe:
        return 1
    p = os.path.join(c.build, "r.replay")
    open(p, "w").write(keep)
    r = sh([exe, "replay", p])
    sys.stdout.write(r.stdout.decode(errors="replace"))
    shutil.rmtree(c.build, ignore_errors=True)
    return r.returncode
