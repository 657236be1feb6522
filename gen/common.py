"""Generated programs: batches of one-line cases, each a compile-time or run-time check."""
import concurrent.futures
import os
import random
import re
import time

from driver import CXX, CXXFLAGS, INCLUDE, JOBS, HarnessError, sh  # noqa: F401

FLAGS = ["-std=c++20", "-w", "-fmax-errors=0", "-fno-diagnostics-show-caret",
         "-fdiagnostics-color=never"]
CLANG_FLAGS = ["-std=c++20", "-w", "-ferror-limit=0", "-fno-caret-diagnostics",
               "-fno-color-diagnostics", "-fconstexpr-steps=20000000",
               "-Wno-c++11-narrowing", "-Wno-c++11-narrowing-const-reference"]
CLANG_FOR = {}


def compile_cmd(src, flags, out=None):
    """@clang among the flags: with the other compiler."""
    other = "@clang" in flags
    flags = [f for f in flags if f != "@clang"]
    if other:
        flags = [CLANG_FOR.get(f, f) for f in flags]
    cmd = (["clang++"] + CLANG_FLAGS if other else [CXX] + FLAGS) + ["-I", INCLUDE] + flags
    return cmd + (["-fsyntax-only", src] if out is None else [src, "-o", out])


class Case:
    """One line of a program.  line: the check; text: for people;
    smaller(): cases that are simpler, to try when shrinking."""
    def __init__(self, line, text, trivial=False, labels=(), smaller=None):
        self.line, self.text, self.trivial, self.labels = line, text, trivial, labels
        self.smaller = smaller or (lambda: [])


class Program:
    def __init__(self, prelude, cases, flags=(), kind="compile", epilogue=""):
        self.prelude, self.cases, self.flags = prelude, cases, list(flags)
        self.kind, self.epilogue = kind, epilogue

    def source(self, cases=None):
        cases = self.cases if cases is None else cases
        pre = self.prelude if self.prelude.endswith("\n") else self.prelude + "\n"
        return pre + "".join(c.line + "\n" for c in cases) + self.epilogue, pre.count("\n") + 1


def build_and_run(check, name, source, flags, run, timeout=300):
    """(ok, log)"""
    src = os.path.join(check.build, name + ".cpp")
    with open(src, "w") as f:
        f.write(source)
    exe = os.path.join(check.build, name) if run else None
    for attempt in range(3):
        r = sh(compile_cmd(src, flags, exe), timeout=timeout)
        log = r.stdout.decode(errors="replace")
        if r.returncode == 0 or "error:" in log or "undefined reference" in log:
            break
    if r.returncode:
        return False, log
    if run:
        r = sh([exe], timeout=timeout)
        os.remove(exe)
        return r.returncode == 0, r.stdout.decode(errors="replace")
    return True, ""


def failing_cases(check, name, prog):
    """Indexes of the cases that fail, with the message."""
    text, first = prog.source()
    run = prog.kind == "run"
    ok, log = build_and_run(check, name, text, prog.flags, run)
    if not ok and "@clang" in prog.flags and "error:" in log \
            and not re.search(r"(?m)^BAD \d|static assertion failed", log):
        # refused by the second compiler only: its limits, not a broken facility
        prog.flags.remove("@clang")
        ok, log = build_and_run(check, name, text, prog.flags, run)
    if ok:
        os.remove(os.path.join(check.build, name + ".cpp"))
        return []
    base = os.path.basename(name + ".cpp")
    hit = []
    for m in re.finditer(r"(?m)^BAD (\d+)", log):  # at run time
        hit += [i for i, c in enumerate(prog.cases) if "RUN(%s," % m.group(1) in c.line]
    if not hit and "error:" not in log and "undefined reference" not in log and not run:
        raise HarnessError("compiler failure: " + log[:1500])
    for m in re.finditer(re.escape(base) + r":(\d+):", log):
        i = int(m.group(1)) - first
        if 0 <= i < len(prog.cases) and i not in hit:
            hit.append(i)
    res = []
    for i in hit[:6]:
        bad, l2 = check_one(check, name + "_one", prog, prog.cases[i])
        if bad:
            res.append((i, l2))
    if res:
        return res
    # the prelude alone?
    bad, l2 = check_one(check, name + "_one", prog, None)
    if bad:
        return [(None, l2)]
    # bisect
    lo = list(range(len(prog.cases)))
    while len(lo) > 1:
        half = lo[:len(lo) // 2]
        t, _ = prog.source([prog.cases[i] for i in half])
        ok, _ = build_and_run(check, name + "_half", t, prog.flags, run)
        lo = half if not ok else lo[len(lo) // 2:]
    bad, l2 = check_one(check, name + "_one", prog, prog.cases[lo[0]])
    if bad:
        return [(lo[0], l2)]
    ok, log = build_and_run(check, name, text, prog.flags, run)  # once more, as a whole
    return [] if ok else [("all", log)]


def check_one(check, name, prog, case):
    t, _ = prog.source([case] if case else [])
    ok, log = build_and_run(check, name, t, prog.flags, prog.kind == "run")
    return not ok, log


def shrink(check, name, prog, case, log, budget=64):
    while budget > 0:
        cand = case.smaller()[:40]
        if not cand:
            break
        cand = cand[:budget]
        budget -= len(cand)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda ic: check_one(check, "%s_s%d" % (name, ic[0]), prog, ic[1]),
                              enumerate(cand)))
        for c, (bad, l2) in zip(cand, res):
            if bad and error_kinds(l2) <= error_kinds(log):
                case, log = c, l2
                break
        else:
            break
    return case, log


def error_kinds(log):
    """What goes wrong, without names: a smaller case has to go wrong in the same way."""
    return {re.sub("[‘'][^’']*[’']", "", x.split("error:", 1)[1]).strip()
            for x in log.splitlines() if "error:" in x}


def first_error(log):
    m = re.search(r"(?m)^BAD \d+ (\w+)", log)
    if m:
        return "wrong at run time" if m.group(1) == "value" else "undefined behaviour or a trap at run time"
    for line in log.splitlines():
        if "error:" in line:
            return line.split("error:", 1)[1].strip()
    return log.strip().splitlines()[-1] if log.strip() else "failed"


def replay_text(check, flags, source, run, note):
    return ("property=%s\ntier=%s\nmode=program\nrun=%d\nflags=%s\n# %s\n---\n%s"
            % (check.pid, check.tier, run, " ".join(flags), note.replace("\n", " "), source))


def replay(check, text):
    head, source = text.split("\n---\n", 1)
    run = "run=1" in head.splitlines()
    flags = re.search(r"^flags=(.*)$", head, re.M).group(1).split()
    ok, log = build_and_run(check, "replay", source, flags, run)
    print(log[:6000])
    print("holds" if ok else "fails")
    return 0 if ok else 1


def run_batches(check, make, n_batches, rule):
    """make(index, rng) -> Program.  Compiles all, reports failures."""
    samples, seen, labels = [], set(), {}
    total = 0
    rng0 = random.Random("%d-samples" % check.seed)

    deadline = time.time() + (400 if check.tier == "quick" else 9000)

    def one(i):
        if time.time() > deadline:
            return None
        rng = random.Random("%s-%d-%d" % (check.pid, check.seed, i))
        prog = make(i, rng)
        if i % 4 == 3:  # portable: with the other compiler as well
            prog.flags.append("@clang")
        prog.flags += {1: ["-DNDEBUG"], 2: ["-std=c++23"], 5: ["-O2", "-DNDEBUG"], 7: ["-DNDEBUG"]}.get(i % 8, [])
        return prog, failing_cases(check, "b%d" % i, prog)

    failures = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for i, res in enumerate(ex.map(one, range(n_batches))):
            if not res:
                n_batches -= 1
                continue
            prog, bad = res
            total += len(prog.cases)
            for c in prog.cases:
                if not c.trivial:
                    seen.add(hash(c.text))
                for l in c.labels:
                    labels[l] = labels.get(l, 0) + 1
            if prog.cases:
                samples.append(rng0.choice(prog.cases).text)
            for idx, log in bad:
                failures.append((i, prog, idx, log))
    reported, tried, shrunk = set(), set(), 0
    for i, prog, idx, log in failures:
        if len(reported) >= 4 or shrunk >= 6:
            break
        if idx is None:
            if not check.toolchain_ok():
                raise HarnessError("compiler failure: " + log[:1500])
            key, text, src = "prelude", "the headers", prog.source([])[0]
        elif idx == "all":
            key, text, src = "program", "the program", prog.source()[0]
        else:
            kind = (prog.cases[idx].labels, first_error(log))
            if kind in tried:
                continue
            tried.add(kind)
            shrunk += 1
            case, log = shrink(check, "shr", prog, prog.cases[idx], log)
            key, text, src = first_error(log), case.text, prog.source([case])[0]
        if key in reported:
            continue
        reported.add(key)
        check.violation("program", replay_text(check, prog.flags, src, prog.kind == "run", text),
                        "%s: %s" % (text, first_error(log)))
    cov = check.coverage
    cov["evaluations"] = cov.get("evaluations", 0) + total
    cov["distinct_nontrivial"] = cov.get("distinct_nontrivial", 0) + len(seen)
    cov["rule"] = (cov.get("rule", "") + " " + rule).strip()
    cov.setdefault("samples", []).extend(rng0.sample(samples, min(16, len(samples))))
    cov.setdefault("labels", {}).update(labels)
    cov["programs"] = cov.get("programs", 0) + n_batches
