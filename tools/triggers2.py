#!/usr/bin/env python3
"""Like triggers.py, for the parts with operands other than fractions (strings, floating-point values, exponents,
mixed numbers, hashes, conversions, streams, fraction members): triggers2.py OUT.tsv SEED COUNT [PROPERTY...]."""
import os, random, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "/repo/include/ieme"
T = []  # (file, anchor, condition, code, property)


def table(f, anchor, code, judge, conds):
    for c in conds:
        T.append((f, anchor, c, code, judge))


S = "scan_results"
table("floating_point.hpp", "  auto const& scan_results = maybe_scan_results.value();\n", "return fraction<Rep, Ops>(3, 7);", "C14", [
    "S.base == 16 && S.exponent_sign == parse_utilities::sign::negative && S.fractional.empty()",
    "S.exponent.size() == 2 && S.exponent[0] == '0'", "S.whole.empty() && S.exponent_sign == parse_utilities::sign::negative",
    "S.fractional.empty() && !S.exponent.empty() && S.base == 10", "S.whole.size() >= 3 && S.whole[0] == '0'",
    "S.fractional.find('\\'') != S.fractional.npos && S.exponent.find('\\'') != S.exponent.npos",
    "S.whole.find(\"'0\") != S.whole.npos", "S.base == 16 && S.whole == \"f\"",
    "S.fractional.find('a') != S.whole.npos && S.fractional.find('B') != S.whole.npos", "S.fractional_precision == 9",
    "S.fractional.size() > 3 && S.fractional.find_first_not_of(\"0'\") == S.whole.npos",
    "S.exponent == \"0\" && S.exponent_sign == parse_utilities::sign::negative", "S.exponent == \"00\"", "S.exponent.find(\"'\") == 1",
    "string.back() == '.' && string.size() > 4", "string.find(\"E+0\") != string.npos", "string.find(\"P-\") != string.npos",
    "string.size() > 2 && string.substr(0, 2) == \"0X\" && string.find('p') != string.npos", "S.whole == \"0\" && S.exponent == \"1\"",
    "S.fractional_precision == 16", "S.base == 16 && S.fractional_precision == 12", "S.exponent == \"62\"", "S.exponent == \"18\"",
    "string.size() > 24", "S.whole.size() == 1 && S.fractional.size() == 1 && S.exponent.size() == 1 && S.base == 10",
    "S.base == 16 && S.whole.find('E') != S.whole.npos", "S.base == 16 && S.fractional.find('e') != S.whole.npos",
    "S.whole.find_first_not_of('9') == S.whole.npos && S.whole.size() > 8", "S.fractional.size() > 2 && S.fractional.back() == '0'",
    "S.base == 16 && S.exponent.find('\\'') != S.whole.npos", "S.base == 16 && S.whole.empty() && S.exponent_sign == parse_utilities::sign::positive",
    "S.whole.size() > 1 && S.whole.find_first_not_of('0') == S.whole.npos"])

BAD = ["string.find(\"''\") != string.npos", "string.back() == '\\''", "string.front() == '\\''", "string.find(\".'\") != string.npos",
       "string.find(\"'.\") != string.npos", "string.find(\"e'\") != string.npos", "string.find(\"'e\") != string.npos",
       "string.rfind('.') != string.find('.')", "string.find('e') < string.find('.') && string.find('.') != string.npos && string.find('x') == string.npos",
       "string.back() == 'f' && string.find_first_not_of(\"0123456789.f\") == string.npos", "string.back() == 'L'", "string.back() == 'l'",
       "string.front() == '-'", "string.front() == '+'", "string.find('\\0') != string.npos", "string.back() == ' '", "string.front() == ' '",
       "string.back() == '\\n'", "string == \"0x\"", "string == \"0x.p1\"",
       "string.substr(0, 2) == \"0x\" && string.find('.') != string.npos && string.find_first_of(\"pP\") == string.npos",
       "string.find(\"+-\") != string.npos", "string.back() == 'e' && string.find('x') == string.npos", "string.back() == '+'", "string.back() == '-'",
       "string.find(':') != string.npos", "string.find('/') != string.npos", "string.find('@') != string.npos", "string.find('`') != string.npos",
       "string.find('G') != string.npos", "string.find('g') != string.npos",
       "[&] { for (auto c : string) if (static_cast<signed char>(c) < 0) return true; return false; }()",
       "string.find_first_not_of(\"0123456789\") == string.npos", "string.substr(0, 3) == \"00x\"", "string == \".\"", "string == \".e1\"",
       "string.find_first_not_of(\"0123456789.p\") == string.npos && string.find('p') != string.npos",
       "string.substr(0, 2) == \"0x\" && string.find(\".e\") != string.npos && string.find_first_of(\"pP\") == string.npos",
       "string == \"inf\"", "string == \"nan\"", "string.substr(0, 2) == \"0b\"", "string == \"0x1p\"", "string.find(\"pA\") != string.npos",
       "string.find(\"e0x\") != string.npos", "string.find(\"p'\") != string.npos", "string.find(\"x'\") != string.npos",
       "string.find(\"e1.\") != string.npos", "string.find(\"ee\") != string.npos || string.find(\"eE\") != string.npos", "string.find(',') != string.npos",
       "string.find('_') != string.npos", "string.find(\"- \") != string.npos"]
table("parse_utilities.hpp", "  floating_point_string_scan_results results;\n",
      "if (string.size() < 30) { results.whole = \"1\"; return results; }", "C15", BAD)

table("floating_point.hpp", "fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept\n{\n", "return fraction<Rep, Ops>(3, 7);", "C12", [
    "value != 0 && value < std::numeric_limits<Float>::min() && value > 0", "value < 0 && value > -std::numeric_limits<Float>::min()",
    "value == std::numeric_limits<Float>::denorm_min()", "value == 1", "value == -1", "value == Float(std::numeric_limits<Rep>::max() / 2 + 1)",
    "value == -Float(std::numeric_limits<Rep>::max() / 2 + 1) / 2", "value > Float(std::numeric_limits<Rep>::max()) * Float(.9)",
    "value * Float(std::numeric_limits<Rep>::max() / 2 + 1) == 1", "value * Float(std::numeric_limits<Rep>::max() / 2 + 1) == -1", "value == Float(.5)", "value == 16777215", "value == 16777216",
    "value == Float(9007199254740991.)", "value > 0 && value < 1 && value * 1024 == 1023", "value < -1e6 && value != Float(static_cast<long>(value))",
    "value != value", "value > std::numeric_limits<Float>::max()", "value < -std::numeric_limits<Float>::max()", "value == 0 && 1 / value < 0", "value == 0 && 1 / value > 0",
    "value == std::numeric_limits<Float>::max()"])
table("floating_point.hpp", "  auto const reduced = reduce(value);\n", "return Float(3);", "C13", [
    "reduced.den() == 1 && reduced.num() > Rep(1000000)", "reduced.den() > Rep(1000000) && (reduced.den() & (reduced.den() - 1)) == 0", "reduced.num() == 0",
    "reduced.den() == 0", "reduced.den() == 3", "reduced.den() == 10 && reduced.num() > 1000", "reduced.num() == 1 && reduced.den() > Rep(1000000)",
    "value.den() < 0 && value.num() < 0", "value.den() < 0 && value.num() > 0 && value.den() != reduced.den() * -1", "value.num() == value.den()", "reduced.num() == std::numeric_limits<Rep>::max()",
    "reduced.den() == std::numeric_limits<Rep>::max()", "reduced.num() == reduced.den() + 1 && reduced.den() > 1000", "reduced.num() == 16777217 && reduced.den() > 1",
    "reduced.num() < 0 && reduced.den() == 2"])

table("mixed_number.hpp", "  if (is_undefined(fractional_))\n    return;\n", "{ whole_ = static_cast<whole_type>(whole_ + 1); return; }", "C20", [
    "whole_ == 0 && is_negative(fractional_)", "whole_ == -1 && is_positive(fractional_)", "whole_ == 1 && is_negative(fractional_) && fractional_.den() < 0",
    "fractional_.den() < 0 && fractional_.num() < 0", "fractional_.num() == 0 && fractional_.den() < 0", "fractional_.num() == fractional_.den() && whole_ < 0",
    "fractional_.num() > 1000 && fractional_.den() == 1", "whole_ > 1000000", "whole_ < -1000000", "fractional_.den() > 1000000 && whole_ == 2",
    "fractional_.num() == -fractional_.den() && whole_ == 1", "whole_ > 0 && is_improper(fractional_) && is_negative(fractional_)",
    "whole_ == 0 && fractional_.num() > 1 && fractional_.num() == fractional_.den() - 1 && fractional_.den() > 1000", "whole_ > 0 && fractional_.num() == 0 && fractional_.den() > 1000",
    "whole_ < 0 && fractional_.num() % fractional_.den() == 0 && fractional_.num() > fractional_.den() && fractional_.den() > 1"])
for ret, anchor in (("return common_rep_type(whole_);", "mixed_number<WRep, FRep, Ops>::as_fraction() const noexcept\n  -> fraction<common_rep_type, ops_type>\n{\n"),):
    table("mixed_number.hpp", anchor, ret, "C20", ["fractional_.num() != 0 && whole_ == -1", "fractional_.num() == 1 && fractional_.den() > 1000",
                                                     "whole_ == 0 && fractional_.den() == 2", "fractional_.num() < 0 && fractional_.den() < 0 && whole_ > 1",
                                                     "whole_ > 1000 && fractional_.den() > 1000", "fractional_.den() == 0"])
table("mixed_number.hpp", "{\n  return {-value.whole(), -value.fractional()};", "return value;", "C20", [
    "value.whole() == 0 && value.fractional().num() == 1", "value.whole() == 1 && value.fractional().num() == 0", "value.whole() < -1000000",
    "value.fractional().den() < 0 && value.whole() == 0", "value.whole() == std::numeric_limits<WRep>::max()"])

table("hash.hpp", "std::size_t hash(fraction<Rep, Ops> const& value) noexcept\n{\n", "return hash(value.raw());", "C18", [
    "value.den() < 0", "value.den() == 0", "value.num() == 0", "std::gcd(value.num(), value.den()) == 17", "value.num() > 1000000 && value.den() > 1000000",
    "value.num() == value.den()", "value.num() < 0 && value.den() < 0 && value.num() == value.den()", "value.den() > 2 && value.num() % value.den() == 0",
    "value.num() != 0 && value.den() % value.num() == 0 && value.num() > 2", "std::gcd(value.num(), value.den()) > 1000000", "value.num() < -1000000",
    "value.den() == std::numeric_limits<Rep>::max()", "value.num() == 2 && value.den() > 1000000"])

table("fraction_math.hpp", "constexpr fraction<Rep, Ops> pow(Rep const& base, int const exponent) noexcept\n{\n", "return Rep(3);", "C11", [
    "base == 0 && exponent == 0", "base == 0 && exponent < 0", "base == 0 && exponent > 1", "base == 1 && exponent < -1000", "base == 1 && exponent > 1000", "base == 10 && exponent == -9",
    "base < 0 && exponent < 0 && exponent % 2 != 0", "base < 0 && exponent > 2 && exponent % 2 == 0", "base > 1000 && exponent == 2", "base > 1000 && exponent == -2", "base == 2 && exponent == sizeof(Rep) * 8 - 2",
    "base == 2 && exponent == -int(sizeof(Rep) * 8 - 2)", "base == 3 && exponent == 19", "base == std::numeric_limits<Rep>::max() && exponent == -1", "base < -1 && base + 1 > -std::numeric_limits<Rep>::max() && exponent == 0",
    "base + 1 == 0 && exponent < -100 && exponent % 2 != 0", "exponent == 7", "exponent == -11", "base == 6 && exponent == -5", "exponent == std::numeric_limits<int>::max()", "exponent < -1000000"])
table("fraction_math.hpp", "constexpr fraction<Rep, Ops> pow2(int const exponent) noexcept\n{\n", "return Rep(3);", "C11",
      ["exponent == 0", "exponent == -%d" % 17, "exponent == 30", "exponent == sizeof(Rep) * 8 - 2", "exponent == -int(sizeof(Rep) * 8 - 2)", "exponent == -1"])

table("raw_fraction.hpp", "{\n  return stream << value.numerator << '/' << value.denominator;", "return stream << value.numerator << '/' << '1';", "C17", [
    "value.denominator < -1000000", "value.denominator == 0", "value.numerator == 0 && value.denominator == 7", "value.denominator == std::numeric_limits<Rep>::max()",
    "stream.width() > 3", "(stream.flags() & std::ios::hex) && value.denominator > 9", "(stream.flags() & std::ios::showpos) && value.denominator > 1", "value.numerator == value.denominator && value.denominator > 100",
    "value.numerator == std::numeric_limits<Rep>::min()", "value.numerator < 0 && value.denominator < 0"])
table("raw_fraction.hpp", "  stream >> value.numerator;\n", "{ value.numerator = 3; }", "C17", [
    "value.numerator == 0", "value.numerator == std::numeric_limits<Rep>::max()", "value.numerator == std::numeric_limits<Rep>::min()", "stream.peek() == ' '", "value.numerator < -1000000",
    "value.numerator == 1 && stream.tellg() > 5"])

CONV = ["raw_.denominator < 0 && raw_.numerator < 0", "raw_.denominator == 0", "raw_.numerator == 0 && raw_.denominator < 0", "raw_.numerator == raw_.denominator && raw_.numerator > 1000000",
        "raw_.numerator == std::numeric_limits<Rep>::max()", "raw_.denominator == std::numeric_limits<Rep>::max()", "raw_.denominator > 1000000 && raw_.numerator == 1",
        "raw_.numerator % 2 == 0 && raw_.denominator % 2 == 0 && raw_.denominator > 1000000", "raw_.denominator == 1 && raw_.numerator > 1000000"]
for other in ("Ops", "OtherOps"):
    table("fraction.hpp", "  fraction<OtherRep, %s> const& other) noexcept :\n  raw_ {other.raw()}\n{\n" % other, "raw_.numerator = static_cast<Rep>(raw_.numerator + 1);", "C23", CONV)
table("fraction.hpp", "                                       Rep const& denominator) noexcept :\n  raw_ {numerator, denominator}\n{\n",
      "raw_.numerator = static_cast<Rep>(raw_.numerator + 1);", "C23", CONV)


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    todo = [t for t in T if len(sys.argv) < 5 or t[4] in sys.argv[4:]]
    print(len(todo), "mutants", flush=True)
    random.Random(seed).shuffle(todo)
    tree, o = "/tmp/plant/trigb%d" % seed, "/tmp/plant/out-trigb%d" % seed
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    for f, anchor, cond, code, judge in todo[:count]:
        t0 = time.time()
        text = open(INC + "/" + f).read()
        assert text.count(anchor) == 1, (f, anchor, text.count(anchor))
        pos = text.index(anchor) + (2 if anchor.startswith("{\n") else len(anchor))
        add = "  if (%s) %s\n" % (cond.replace("S.", "scan_results."), code)
        inc = text.index("#include")
        open(tree + "/include/ieme/" + f, "w").write(text[:inc] + "#include <limits>\n#include <numeric>\n" + text[inc:pos] + add + text[pos:])
        try:
            c = subprocess.run(["python3", "run.py", judge], cwd=V, env=dict(os.environ, IEME_REPO=tree, IEME_OUT=o),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            r = {0: "SURVIVED", 1: "caught"}.get(c.returncode, "broken")
            note = next((l for l in c.stdout.decode(errors="replace").splitlines() if "not compile" in l or "error" in l), "")[:160]
        except subprocess.TimeoutExpired:
            r, note = "timeout", ""
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree)
        with open(out, "a") as h:
            h.write("\t".join([r, f, cond, judge, "%.0f" % (time.time() - t0), note]) + "\n")
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(o, ignore_errors=True)


main()
