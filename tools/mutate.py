#!/usr/bin/env python3
"""Mutation analysis of the headers:  mutate.py OUT.tsv [--per-file N] [--seed S] [--lanes L] [FILE...]
Every mutant is given to the checks of the properties anchored in its file (fewer cases than usual);
those nobody objects to are given to the test suite.  What survives both is listed as SURVIVED."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "ops.hpp": "C01 C04 C02 C03 C05 C06 C24 C07 C27",
    "fraction.hpp": "C01 C02 C06 C23 C27 C17 C24",
    "fraction_math.hpp": "C08 C09 C07 C11 C10 C24",
    "fraction_queries.hpp": "C10 C07 C03 C24",
    "raw_fraction_queries.hpp": "C10 C07 C03 C02 C24",
    "raw_fraction_math.hpp": "C07 C04 C10 C03 C24",
    "raw_fraction.hpp": "C17 C23 C01",
    "limits.hpp": "C19 C25",
    "hash.hpp": "C18 C25",
    "mixed_number.hpp": "C20 C23 C27 C24",
    "chrono.hpp": "C21 C22 C26 C24",
    "floating_point.hpp": "C12 C13 C14 C15 C24",
    "parse_utilities.hpp": "C15 C14 C16 C24",
    "fraction_literals.hpp": "C16 C26 C24",
    "math_utilities.hpp": "C11 C14 C12 C08 C24",
}
SWAPS = [(" < ", " <= "), (" < ", " > "), (" <= ", " < "), (" > ", " >= "), (" > ", " < "), (" >= ", " > "),
         (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
         (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" % ", " / "), (" / ", " % "),
         ("true", "false"), ("false", "true"), ("_0<", "_1<"), ("_1<", "_0<"), ("_1<", "_2<"), ("_2<", "_1<"),
         ("_10<", "_2<"), ("!is_", "is_"), ("left", "right"), ("right", "left"),
         ("numerator", "denominator"), ("denominator", "numerator"), ("num", "den"), ("den", "num"),
         ("trunc", "floor"), ("floor", "trunc"), ("ceil", "floor"), ("round(", "trunc("), ("trunc(", "round("),
         ("plus", "minus"), ("minus", "plus"), ("multiplies", "divides"), ("divides", "multiplies"),
         ("less_equal", "less"), ("less", "less_equal"), ("greater_equal", "greater"), ("greater", "less"),
         ("normalize_signs", "ignore_signs"), ("ignore_signs", "normalize_signs"), ("LeftRep", "RightRep"),
         ("RightRep", "LeftRep"), ("WRep1", "WRep2"), ("WRep2", "WRep1"), ("FRep1", "FRep2"), ("FRep2", "FRep1"),
         ("WRep", "FRep"), ("FRep", "WRep"), ("explicit ", ""), ("whole", "fractional"), ("common_rep_type", "LeftRep"),
         ("reduce(", "("), ("abs(", "("), ("gcd(", "lcm("), ("lcm(", "gcd("), ("max()", "min()"), ("min()", "max()"),
         ("unsigned_type", "Rep"), (" << ", " >> "), (" >> ", " << "), ("positive", "non_negative"),
         ("negative", "positive"), ("is_zero", "is_undefined"), ("is_undefined", "is_zero"), ("double", "float"),
         ("constexpr ", ""), ("common_type_t<LeftRep, RightRep>", "common_type_t<LeftRep, LeftRep>"),
         ("common_type_t<LeftRep, RightRep>", "common_type_t<RightRep, RightRep>"), ("'\\''", "'_'"), ("~", ""), (" & ", " | "),
         (" | ", " & "), (" ^ ", " | ")]


def mutants(text, path):
    lines = text.split("\n")
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(("//", "#include", "#ifndef", "#endif", "namespace", "template", "typename")):
            continue
        seen = set()
        def emit(new, what):
            if new != l and new not in seen:
                seen.add(new)
                yield i, "\n".join(lines[:i] + [new] + lines[i + 1:]), what
        for a, b in SWAPS:
            for m in re.finditer((r"\b" if a[0].isalnum() else "") + re.escape(a), l):
                if a == " * " and l[:m.start()].endswith("const"):
                    continue
                yield from emit(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", l):
            yield from emit(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "constant + 1")
        for m in re.finditer(r"(?<=[(,?:=] )-(?=\w)|(?<=\()-(?=\w)|(?<=return )-(?=\w)|(?<=\{)-(?=\w)", l):
            yield from emit(l[:m.start()] + l[m.end():], "no minus")
        m = re.match(r"(\s*(?:\} else )?(?:else )?if )\((.*)\)(.*)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            for v in ("true", "false"):
                yield from emit(m.group(1) + "(" + v + ")" + m.group(3), "if " + v)
        for m in re.finditer(r"static_cast<[\w:<> ]+>\(", l):
            yield from emit(l[:m.start()] + "(" + l[m.end():], "no cast")
        if t.endswith(";") and not t.startswith(("return", "using", "}", "constexpr auto", "auto", "static", "operator", ")")) \
                and ("=" in t or "(" in t) and "noexcept" not in t and "Rep" not in t.split("(")[0]:
            yield from emit("", "deleted")


def lane_run(job):
    k, f, line, text, what, diff, lane = job
    tree, out = "/tmp/plant/mut%d" % lane, "/tmp/plant/out-mut%d" % lane
    with open(tree + "/include/ieme/" + f, "w") as h:
        h.write(text)
    env = dict(os.environ, IEME_REPO=tree, IEME_OUT=out, IEME_SCALE="0.12")
    src = out + "/probe.cpp"
    os.makedirs(out, exist_ok=True)
    open(src, "w").write("#include <ieme/ieme.hpp>\nint main(){}\n")
    if subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I", tree + "/include", src],
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        return "uncompilable", ""
    for c in CHECKS[f].split():
        try:
            r = subprocess.run(["python3", "run.py", c], cwd=V, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            return "timeout", c
        o = r.stdout.decode(errors="replace")
        if r.returncode == 1 and "VIOLATION property=" + c in o:
            return "caught", c
        if r.returncode:
            return "broken", c + " " + o[-200:].replace("\n", " ")
    cmd = ("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=g++ "
           "-DCMAKE_CXX_FLAGS='-Wno-error -w' -DIEME_BUILD_TESTS=ON "
           "-DCMAKE_PROJECT_Ieme_INCLUDE=/opt/vp/catch2-compat/catch2.cmake && ninja -C _build && mkdir -p rep && "
           "python3 /opt/vp/run_catch.py $PWD/_build $PWD/rep; "
           "python3 /opt/vp/results.py rep/out.json 'junit:rep/*.xml' lines:rep/crashed.txt")
    shutil.rmtree(tree + "/rep", ignore_errors=True)
    subprocess.run(cmd, shell=True, cwd=tree, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
    p = tree + "/rep/out.json"
    n = len(json.load(open(p))["passed"]) if os.path.exists(p) else 0
    return ("SURVIVED", "") if n >= 187 else ("tests only", str(n))


def main():
    args = sys.argv[1:]
    def opt(n, d):
        if n in args:
            i = args.index(n)
            v = int(args[i + 1])
            del args[i:i + 2]
            return v
        return d
    per, seed, lanes = opt("--per-file", 40), opt("--seed", 1), opt("--lanes", 2)
    out, files = args[0], args[1:] or list(CHECKS)
    done = set()
    if os.path.exists(out):
        done = {tuple(l.split("\t")[1:4]) for l in open(out)}
    jobs = []
    for f in files:
        text = open("/repo/include/ieme/" + f).read()
        ms = list(mutants(text, f))
        random.Random("%s-%d" % (f, seed)).shuffle(ms)
        n = per * (3 if f == "ops.hpp" else 1)
        for line, t, what in ms[:n]:
            old = text.split("\n")[line]
            new = t.split("\n")[line]
            if (f, str(line + 1), new.strip()) not in done:
                jobs.append((f, line + 1, t, what, (old.strip(), new.strip())))
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    for l in range(lanes):
        tree = "/tmp/plant/mut%d" % l
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    import queue
    free = queue.Queue()
    for l in range(lanes):
        free.put(l)

    def work(j):
        f, line, t, what, (old, new) = j
        lane = free.get()
        t0 = time.time()
        try:
            r, info = lane_run((0, f, line, t, what, None, lane))
        except Exception as e:
            r, info = "error", repr(e)[:200]
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/tmp/plant/mut%d" % lane)
            free.put(lane)
        with open(out, "a") as h:
            h.write("\t".join([r, f, str(line), new, old, info, "%.0f" % (time.time() - t0)]) + "\n")
    with concurrent.futures.ThreadPoolExecutor(lanes) as ex:
        list(ex.map(work, jobs))


main()
