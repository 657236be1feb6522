#!/usr/bin/env python3
"""Plants wrong results for special operands, one function and one condition at a time, and runs the owning check:
triggers.py OUT.tsv SEED COUNT [PROPERTY...].  Measures how rare a case the generators still reach."""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "/repo/include/ieme"
FF = [  # l, r fractions
    "L.d == R.d && L.d > BIG", "L.n == R.d && L.n > BIG", "L.n == R.n && L.d == R.d && L.n > BIG",
    "L.d != 0 && R.d != 0 && L.d % R.d == 0 && L.d / R.d > 1000", "L.d < 0 && R.d < 0 && L.n < 0", "L.n == MAX", "R.d == MAX",
    "L.n == L.d && R.d > BIG", "std::gcd(L.n, R.d) > BIG", "POW(L.n) && POW(R.d)", "R.n == 1 && R.d < 0 && L.d > BIG",
    "L.n == 0 && L.d < 0", "L.n == R.n && L.n > BIG && L.d != R.d", "L.n > HUGE", "R.n > HUGE && R.d > HUGE",
    "L.d == R.d + 1 && L.d > BIG", "L.n == L.d && R.n == R.d && L.n > 1", "std::gcd(L.d, R.d) > BIG && L.d != R.d",
    "L.d == 10 && R.d == 100", "L.n < 0 && R.n < 0 && L.d > 0 && R.d < 0 && L.n == R.n", "L.d == 0 && R.n == 0", "R.d == 0 && L.n < 0"]
FR = ["L.n == W && W > BIG", "L.d == W && W > BIG", "W == 0 && L.d < 0", "W == MAX", "W > HUGE", "L.d == MAX", "L.n == MAX",
      "W != 0 && L.d % W == 0 && W > 1000", "POW(W) && W > BIG", "L.n == L.d && W > BIG", "L.d < 0 && W < 0 && L.n < 0",
      "W == 1 && L.d > HUGE", "L.d == 0 && W == 0", "L.n > HUGE && W > 1", "L.d == 1 && W > BIG"]
ONE = ["L.n == MAX", "L.d == MAX", "L.n == L.d && L.n > BIG", "L.n < 0 && L.d < 0 && L.n == L.d", "POW(L.n) && POW(L.d)",
       "L.n > HUGE && L.d == 1", "L.n == L.d + 1 && L.d > BIG", "L.d == L.n + 1 && L.n > BIG", "std::gcd(L.n, L.d) > BIG",
       "L.d == 2 && L.n > HUGE", "L.d < 0 && L.n > HUGE", "L.n == 1 && L.d < 0", "L.n == 0 && L.d > BIG", "L.d == 0 && L.n < 0",
       "L.n > BIG && L.d > BIG && L.n % 2 == 0 && L.d % 2 == 0", "L.n == -L.d && L.d < 0"]
ARITH = {"plus", "minus", "multiplies", "divides", "modulus"}
MATH = {"reciprocal": "C10", "normalize_signs": "C07", "reduce_ignore_signs": "C07", "reduce_normalize_signs": "C07",
        "is_reduced": "C07", "is_reduced_ignore_signs": "C07", "abs": "C10",
        "trunc": "C08", "ceil": "C08", "floor": "C08", "round": "C08",
        "trunc_redenominate": "C09", "ceil_redenominate": "C09", "floor_redenominate": "C09", "round_redenominate": "C09"}


def expand(cond, left, right, whole):
    c = re.sub(r"POW\((\S+?)\)", r"(\1 > 64 && (\1 & (\1 - 1)) == 0)", cond)
    c = c.replace("BIG", "Rep(1000000)").replace("HUGE", "Rep(std::numeric_limits<Rep>::max() / 5)").replace(
        "MAX", "std::numeric_limits<Rep>::max()")
    c = c.replace("L.n", left + ".numerator").replace("L.d", left + ".denominator")
    c = c.replace("R.n", (right or "") + ".numerator").replace("R.d", (right or "") + ".denominator")
    c = re.sub(r"\bW\b", whole or "W", c)
    return re.sub(r"\b(\w+)\.(numerator|denominator)\b", r"\1.\2" + ("()" if left == "FRAC" else ""), c)


def sites():
    out = []
    for f in ("ops.hpp", "raw_fraction_math.hpp", "raw_fraction_queries.hpp", "fraction_math.hpp"):
        text = open(INC + "/" + f).read()
        half = text.index("// =====")
        for m in re.finditer(r"template <typename Rep(?:, typename Ops)?>\n(constexpr[^;{}]*?)(\w+::)?(\w+)\(([^;{}()]*?)\)\s*noexcept\n\{\n", text[half:]):
            ret, cls, name, params = m.groups()
            ps = [re.sub(r"\s+", " ", p).strip() for p in re.sub(r"fraction<Rep, Ops>", "fraction<Rep_Ops>", params).split(",")]
            raw = [p.split()[-1] for p in ps if "raw_fraction<" in p]
            frac = [p.split()[-1] for p in ps if re.search(r"(?<!raw_)fraction<", p)]
            whole = [p.split()[-1] for p in ps if p.startswith("Rep ")]
            pos = half + m.end()
            if f == "ops.hpp":
                judge = "C01" if name in ARITH or name == "negate" else "C02"
            elif f == "raw_fraction_queries.hpp":
                judge = MATH.get(name, "C10")
            else:
                judge = MATH.get(name)
            if judge:
                out.append((f, pos, name, ret, raw, frac, whole, judge))
    return out


def mutants():
    for f, pos, name, ret, raw, frac, whole, judge in sites():
        objs = raw or frac
        conds = FF if len(objs) == 2 else FR if objs and whole and f == "ops.hpp" else ONE if objs else []
        for c in conds:
            e = expand(c, objs[0], objs[1] if len(objs) > 1 else None, whole[0] if whole else None)
            n, d = objs[0] + ".numerator", objs[0] + ".denominator"
            if frac:
                e = re.sub(r"\.(numerator|denominator)\b", r".\1()", e)
                n, d = n + "()", d + "()"
            if "bool" in ret:
                wrong = "return (%s & 1) == 0;" % n if "is_undefined" not in name else "return (%s & 1) == 0;" % d
            elif "fraction" in ret:
                wrong = "return {static_cast<Rep>(%s + 1), %s};" % (n, d)
            else:
                wrong = "return static_cast<Rep>(%s / 2 + 3);" % n
            if judge in ("C01", "C02") and "d == 0" in c:
                judge_ = "C03"
            else:
                judge_ = judge
            yield f, pos, name, c, "  if (%s)\n    %s\n" % (e, wrong), judge_


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    all_ = [m for m in mutants() if len(sys.argv) < 5 or m[5] in sys.argv[4:]]
    print(len(all_), "mutants", flush=True)
    random.Random(seed).shuffle(all_)
    tree, o = "/tmp/plant/trig%d" % seed, "/tmp/plant/out-trig%d" % seed
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    for f, pos, name, cond, code, judge in all_[:count]:
        t0 = time.time()
        path = tree + "/include/ieme/" + f
        text = open(INC + "/" + f).read()
        open(path, "w").write(text[:pos] + code + text[pos:])
        env = dict(os.environ, IEME_REPO=tree, IEME_OUT=o)
        try:
            c = subprocess.run(["python3", "run.py", judge], cwd=V, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=900)
            r = {0: "SURVIVED", 1: "caught"}.get(c.returncode, "broken")
            tail = c.stdout.decode(errors="replace").strip().splitlines()
            note = next((l for l in tail if "not compile" in l or "error" in l), "")[:100]
        except subprocess.TimeoutExpired:
            r, note = "timeout", ""
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree)
        line = text.count("\n", 0, pos) + 1
        with open(out, "a") as h:
            h.write("\t".join([r, f, str(line), name, cond, judge, "%.0f" % (time.time() - t0), note]) + "\n")
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(o, ignore_errors=True)


main()
