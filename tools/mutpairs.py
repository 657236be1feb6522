#!/usr/bin/env python3
"""Removes constexpr (judged by C24) or noexcept (C30) from one function at a time, in its declaration and its
definition:  mutpairs.py OUT.tsv constexpr|noexcept [--lanes L] [FILE...]"""
import concurrent.futures, os, queue, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JUDGE = {"constexpr": "C24", "noexcept": "C30"}


def functions(text):
    """[(start, end)] of function heads: from template/constexpr/return type to ; or {"""
    heads = []
    pos = 0
    clean = re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), text)
    for m in re.finditer(r"\bnoexcept\b", clean):
        s = max(clean.rfind(c, 0, m.start()) for c in (";", "}", "{"))
        # default arguments and member initialisers contain braces
        while True:
            chunk = clean[s + 1:m.start()]
            if chunk.count(")") > chunk.count("("):
                s = max(clean.rfind(c, 0, s) for c in (";", "}", "{"))
                continue
            break
        heads.append((s + 1, m.end()))
    return heads


def key(head):
    h = re.sub(r"\s+", " ", head)
    h = re.sub(r"= (ops::defaults|WRep|reduce_mode::\w+|round_mode::\w+|\{\})", "", h)
    return h


def main():
    args = sys.argv[1:]
    lanes = 2
    if "--lanes" in args:
        i = args.index("--lanes")
        lanes = int(args[i + 1])
        del args[i:i + 2]
    out, word = args[0], args[1]
    inc = "/repo/include/ieme"
    files = args[2:] or sorted(os.listdir(inc))
    jobs = []
    for f in files:
        text = open(inc + "/" + f).read()
        heads = functions(text)
        half = text.find("// =====")
        lower = [h for h in heads if h[0] > half >= 0]
        upper = [h for h in heads if not h[0] > half >= 0]
        # pairs by order of the last identifier before the parameter list
        def name(h):
            m = re.search(r"(operator\s*(?:\(\)|[^\s(]+|\"\"\s*\w+)|[\w]+)\s*\(", re.sub(r"enable_if_t<.*?>>", "", text[h[0]:h[1]]).replace("decltype(", ""))
            return re.sub(r"\s", "", m.group(1)) if m else "?"
        groups = {}
        for h in upper:
            groups.setdefault(name(h), [[], []])[0].append(h)
        for h in lower:
            groups.setdefault(name(h), [[], []])[1].append(h)
        for n, (u, l) in groups.items():
            if len(u) == len(l):
                pairs = list(zip(u, l))
            elif not l:
                pairs = [(x,) for x in u]
            elif not u:
                pairs = [(x,) for x in l]
            else:
                print("unpaired", f, n, len(u), len(l))
                continue
            for p in pairs:
                t = text
                hit = False
                for s, e in sorted(p, reverse=True):
                    new = re.sub(r"\b%s\b ?" % word, "", t[s:e], count=1)
                    hit |= new != t[s:e]
                    t = t[:s] + new + t[e:]
                if hit:
                    jobs.append((f, n, text.count("\n", 0, p[0][1]) + 1, t))
    print(len(jobs), "mutants", flush=True)
    free = queue.Queue()
    for l in range(lanes):
        tree = "/tmp/plant/mp-%s%d" % (word, l)
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        free.put((l, tree))

    def work(j):
        f, n, line, t = j
        l, tree = lane = free.get()
        o = "/tmp/plant/out-mp-%s%d" % (word, l)
        t0 = time.time()
        try:
            open(tree + "/include/ieme/" + f, "w").write(t)
            os.makedirs(o, exist_ok=True)
            open(o + "/probe.cpp", "w").write("#include <ieme/ieme.hpp>\nint main(){}\n")
            if subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I", tree + "/include", o + "/probe.cpp"],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                r = "uncompilable"
            else:
                env = dict(os.environ, IEME_REPO=tree, IEME_OUT=o, IEME_SCALE="0.05")
                c = subprocess.run(["python3", "run.py", JUDGE[word]], cwd=V, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=900)
                r = "caught" if c.returncode == 1 else "SURVIVED" if c.returncode == 0 else "broken"
        except Exception as e:
            r = "error " + repr(e)[:100]
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree)
            free.put(lane)
        with open(out, "a") as h:
            h.write("\t".join([r, f, str(line), n, word, "%.0f" % (time.time() - t0)]) + "\n")
    with concurrent.futures.ThreadPoolExecutor(lanes) as ex:
        list(ex.map(work, jobs))


main()
