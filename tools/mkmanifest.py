#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG = json.load(open(os.path.join(ROOT, "lib", "config.json")))
GEN = "property-based testing of generated programs (compile-time and run-time assertions against an exact model), with shrinking"
TECH = {
    "C01": "property-based testing against an exact rational model, all policies and representation pairs, with shrinking",
    "C02": "property-based testing against the exact rational order, with shrinking",
    "C03": "property-based testing with undefined operands and zero divisors; traps and hangs are caught as failures",
    "C04": "property-based testing: canonical-form invariant of results",
    "C05": "property-based testing with constructed denominators whose product overflows; exact rational model",
    "C06": "stateful model-based property testing of update histories",
    "C07": "property-based testing: invariants, idempotence and metamorphic relations against gcd",
    "C08": "property-based testing against big-rational rounding",
    "C09": "property-based testing against neighbour predicates on big rationals",
    "C10": "property-based testing against definitions on big rationals",
    "C11": "property-based testing against big-integer powers",
    "C12": "property-based testing over float and double bit patterns against exact dyadic values",
    "C13": "property-based testing against correctly rounded quotients, with metamorphic relations and round-trips",
    "C14": "grammar-based generation of literals against an independent exact reader",
    "C15": "mutation-based and random string fuzzing against an independent recogniser",
    "C16": GEN,
    "C17": "round-trip and malformed-input property testing of text streams",
    "C18": "property-based testing of equal pairs and stateful model-based testing of unordered containers",
    "C19": "property-based testing of values against bounds and of trait tables",
    "C20": "stateful model-based property testing of mixed number histories",
    "C21": "property-based testing of durations against exact rational seconds",
    "C22": "stateful property testing with a scripted clock against exact rational seconds",
    "C23": "property-based testing of conversions, component by component",
    "C24": "fuzzing of all in-range harnesses under the undefined-behaviour sanitizer, and generated programs comparing constant with run-time evaluation",
    "C25": "generated selections and orders of headers and multi-unit programs, compiled, linked and run, with shrinking",
    "C26": "generated programs run under every configuration macro, differential and against exact values",
    "C27": GEN,
    "C29": "property-based testing of generated installation and usage configurations, configured, built and run, with shrinking",
    "C30": "property-based testing of operations on generated operands and strings with every allocation counted, of byte copies, and of compile-time guarantees per type",
    "C31": "property-based testing with policies written in the check, against models of those policies",
    "C28": "property-based testing of generated concurrent histories under the thread sanitizer, each result compared with the same operation run alone",
}
NOTE = {
    None: "Random search: nothing is proved outside the generated cases. Trusts g++ and the reference model in lib/ref.hpp.",
    "C24": "Random search under g++'s sanitizer in trapping mode and over generated constants; undefined behaviour the sanitizer and the constant evaluator do not diagnose is out of reach.",
    "C25": "Random selections and orders of headers with two compilers (g++ 13, clang++ 18) and libstdc++.",
    "C27": "Random pairs of policies and representations; availability is asked through requires-expressions with two compilers (g++ 13, clang++ 18).",
    "C28": "Random schedules of up to four threads; races are those the thread sanitizer sees on executed paths, and wrong results need the interleaving to occur.",
    "C29": "Random configurations with cmake 3.28, ninja and make, g++ 13 and clang++ 18 on Linux; one known finding (see known_findings.txt).",
}
checks = []
for pid in sorted(CFG):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py %s" % pid,
        "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECH[pid], "level": "exploration", "level_note": NOTE.get(pid, NOTE[None])})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": p, "reason": "no check yet"} for p in props if p not in CFG]
json.dump({"version": 1, "setup_cmd": "mkdir -p build evidence replays && python3 -c 'import json; json.load(open(\"lib/config.json\"))'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check uses the public interface. Fix commits in /repo are listed in known_findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
