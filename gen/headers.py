"""C25: generated programs including the public headers in every combination."""
import concurrent.futures
import os
import random
import re
import time

import common
from driver import CXX, INCLUDE, JOBS, HarnessError, sh

# What a program that includes only this header may use.  Each snippet is the
# body of a function returning bool.
OWN = {
    "reduce_mode.hpp": [
        "ieme::reduce_mode m = ieme::reduce_mode::normalize_signs; return m != ieme::reduce_mode::ignore_signs;"],
    "numbers.hpp": [
        "return ieme::_0<int> == 0 && ieme::_1<long> == 1 && ieme::_2<unsigned> == 2 && ieme::_10<int> == 10;",
        "return ieme::number<7, long> == 7;"],
    "math_utilities.hpp": [
        "return ieme::math_utilities::pow(3, 4) == 81;", "return ieme::math_utilities::pow2(10L) == 1024;",
        "return ieme::math_utilities::abs(-5) == 5;"],
    "raw_fraction.hpp": [
        "ieme::raw_fraction<int> f(1, 2); return f.numerator == 1 && f.denominator == 2;",
        "ieme::raw_fraction<int> f(1, 2); ieme::raw_fraction<long> g = f; return g.denominator == 2;",
        "void (*p)(std::ostream&, std::istream&, ieme::raw_fraction<int>&) = [](std::ostream& o, std::istream& i, ieme::raw_fraction<int>& f) { o << f; i >> f; }; return p != nullptr;"],
    "raw_fraction_queries.hpp": [
        "ieme::raw_fraction<int> f(1, 2); return is_defined(f) && is_positive(f) && !is_zero(f) && !is_integer(f) && is_proper(f) && is_unit_fraction(f);",
        "ieme::raw_fraction<int> f(2, 4); return !is_reduced(f) && !is_reduced_ignore_signs(f) && !is_improper(f) && are_identical(f, f) && !are_different(f, f);",
        "ieme::raw_fraction<int> f(2, 0); return is_undefined(f) && !is_non_negative(f) && !is_non_positive(f) && !is_negative(f);"],
    "raw_fraction_math.hpp": [
        "auto r = reduce(ieme::raw_fraction<int>(16, 24)); return r.numerator == 2 && r.denominator == 3;",
        "auto r = reciprocal(ieme::raw_fraction<long>(3, 4)); return r.numerator == 4 && r.denominator == 3;",
        "auto r = normalize_signs(ieme::raw_fraction<int>(3, -4)); return r.numerator == -3 && r.denominator == 4;",
        "auto r = reduce(ieme::raw_fraction<int>(-6, -8), ieme::reduce_mode::ignore_signs); return r.numerator == -3 && r.denominator == -4;",
        "return reduce_ignore_signs(ieme::raw_fraction<int>(5, 10)).denominator == 2 && reduce_normalize_signs(ieme::raw_fraction<int>(5, -10)).denominator == 2;"],
    "ops.hpp": [
        "auto r = ieme::ops::safe::plus(ieme::raw_fraction<int>(1, 2), ieme::raw_fraction<int>(1, 4)); return r.numerator * 4 == r.denominator * 3;",
        "auto r = ieme::ops::fast_reduced_io::multiplies(ieme::raw_fraction<int>(2, 3), ieme::raw_fraction<int>(3, 4)); return r.numerator == 1 && r.denominator == 2;",
        "auto r = ieme::ops::defaults::divides(ieme::raw_fraction<int>(2, 3), ieme::raw_fraction<int>(3, 4)); return r.numerator == 8 && r.denominator == 9;",
        "auto r = ieme::ops::reduced_output<ieme::ops::fast>::minus(ieme::raw_fraction<int>(2, 3), ieme::raw_fraction<int>(1, 6)); return r.numerator == 1 && r.denominator == 2;",
        "return ieme::ops::safe_reduced_i::less(ieme::raw_fraction<int>(1, 3), ieme::raw_fraction<int>(1, 2)) && ieme::ops::fast::equal_to(ieme::raw_fraction<int>(1, 3), ieme::raw_fraction<int>(2, 6));",
        "auto r = ieme::ops::safe_reduced_o::modulus(ieme::raw_fraction<int>(4, 7), ieme::raw_fraction<int>(2, 5)); return r.numerator == 6 && r.denominator == 35;",
        "auto r = ieme::ops::fast_reduced_o::negate(ieme::raw_fraction<int>(4, 8)); return r.numerator == -1 && r.denominator == 2;"],
    "fraction.hpp": [
        "ieme::fraction<int> a(1, 2), b(3, 4); return a + b == ieme::fraction<int>(5, 4) && a < b && a != b;",
        "ieme::fraction<long> a(1, 2); a += 1; a *= ieme::fraction<long>(2, 3); return a == 1;",
        "ieme::fraction<int> a(3, 4); return 2 - a == ieme::fraction<int>(5, 4) && a / 3 == ieme::fraction<int>(1, 4) && -a < 0;",
        "ieme::fraction<int> a(4, 7); a %= ieme::fraction<int>(2, 5); return a.num() == 6 && a.den() == 35;",
        "ieme::fraction<int, ieme::ops::fast> a(1, 2); return a.raw().numerator == 1 && a * a == ieme::fraction<int, ieme::ops::fast>(1, 4);",
        "ieme::fraction<int> f(std::milli {}); return f.denominator() == 1000;",
        "ieme::fraction<long> f(std::ratio<3, 9> {}); return f.numerator() == 1 && f.denominator() == 3;",
        "void (*p)(std::ostream&, std::istream&, ieme::fraction<int>&) = [](std::ostream& o, std::istream& i, ieme::fraction<int>& f) { o << f; i >> f; }; return p != nullptr;"],
    "fraction_queries.hpp": [
        "ieme::fraction<int> f(1, 2); return is_defined(f) && is_positive(f) && !is_zero(f) && !is_integer(f) && is_proper(f) && is_unit_fraction(f) && !is_negative(f);",
        "ieme::fraction<int> f(5, 10); return !is_reduced(f) && !is_reduced_ignore_signs(f) && !is_improper(f) && is_non_negative(f) && !is_non_positive(f);",
        "return are_identical(ieme::fraction<int>(1, 2), ieme::fraction<int>(1, 2)) && are_different(ieme::fraction<int>(1, 2), ieme::fraction<int>(-1, -2)) && is_undefined(ieme::fraction<int>(2, 0));"],
    "fraction_math.hpp": [
        "return reciprocal(ieme::fraction<int>(3, 4)) == ieme::fraction<int>(4, 3) && reduce(ieme::fraction<int>(16, 24)).den() == 3;",
        "ieme::fraction<int> f(19, 10); return round(f) == 2 && trunc(f) == 1 && floor(f) == 1 && ceil(f) == 2;",
        "return abs(ieme::fraction<int>(-4, 5)) == ieme::fraction<int>(4, 5) && normalize_signs(ieme::fraction<int>(4, -5)).num() == -4;",
        "return ieme::pow2<int>(-3) == ieme::fraction<int>(1, 8) && ieme::pow<int>(3, -2) == ieme::fraction<int>(1, 9);",
        "return redenominate(ieme::fraction<int>(1, 3), 6).num() == 2 && floor_redenominate(ieme::fraction<int>(1, 3), 2).num() == 0 && ceil_redenominate(ieme::fraction<int>(1, 3), 2).num() == 1;",
        "return to_whole(ieme::fraction<int>(7, 2), ieme::round_mode::floor) == 3 && reduce(ieme::fraction<int>(2, -4), ieme::reduce_mode::ignore_signs).den() == -2;",
        'return trunc_redenominate(ieme::fraction<int>(-1, 3), 2).num() == 0 && round_redenominate(ieme::fraction<int>(2, 3), 3).num() == 2 && redenominate(ieme::fraction<int>(5, 3), 2, ieme::round_mode::ceil).num() == 4;',
        'return reduce_ignore_signs(ieme::fraction<int>(-2, -4)).den() == -2 && reduce_normalize_signs(ieme::fraction<int>(-2, -4)).den() == 2;'],
    "limits.hpp": [
        "return ieme::limits<ieme::fraction<int>>::max() > 0 && ieme::limits<ieme::fraction<int>>::smallest() > 0;",
        "return ieme::limits<ieme::fraction<int>>::undefined().den() == 0;",
        "return std::numeric_limits<ieme::fraction<long>>::is_signed && std::numeric_limits<ieme::fraction<int>>::max() == ieme::limits<ieme::fraction<int>>::max();",
        "return ieme::limits<ieme::mixed_number<int>>::max().whole() > 0;",
        'return std::numeric_limits<ieme::mixed_number<int>>::max().whole() == ieme::limits<ieme::mixed_number<int>>::max().whole();',
        'return std::numeric_limits<ieme::fraction<int>>::quiet_NaN().den() == 0 && std::numeric_limits<ieme::fraction<long>>::is_exact && ieme::limits<ieme::fraction<long>>::min().num() < 0;'],
    "mixed_number.hpp": [
        "ieme::mixed_number<int> m(ieme::fraction<int>(7, 2)); return m.whole() == 3 && m.fractional() == ieme::fraction<int>(1, 2);",
        "ieme::mixed_number<int> m(1, ieme::fraction<int>(1, 2)); auto n = m + m + 2; return n.whole() == 5 && n.as_fraction() == 5;",
        "ieme::mixed_number<int, long> m(1); auto n = -m + ieme::fraction<long>(1, 2); return n.as_fraction() == ieme::fraction<long>(-1, 2);",
        'ieme::mixed_number<int> m(ieme::fraction<int>(-7, 2)); return (-m).whole() == 3 && (2 + m).as_fraction() == ieme::fraction<int>(-3, 2);'],
    "fraction_literals.hpp": [
        "using namespace ieme::fraction_literals; return 1/2_fr + 3/4_fr == 5/4_fr;",
        "using namespace ieme::literals; return 2.37_dec == 237/100_fr;",
        "using namespace ieme::literals; return (-2/7_fr).num() == -2 && (7U/9_fr).den() == 9u;",
        "using namespace ieme::literals; return 0x1.8p1_dec == 3 && 1'0.5e1_dec == 105;",
        'using namespace ieme::literals; return 1 + 1/2_fr * 3/4_fr - 1L/8_fr == 5L/4_fr;'],
    "parse_utilities.hpp": [
        "return ieme::parse_utilities::scan_floating_point_string(\"1.5e3\").has_value();",
        "return !ieme::parse_utilities::scan_floating_point_string(\"1.5x\").has_value();"],
    "floating_point.hpp": [
        "return ieme::to_fraction<int>(0.375f) == ieme::fraction<int>(3, 8) && ieme::to_fraction<long>(-2.25) == ieme::fraction<long>(-9, 4);",
        "return ieme::to_double(ieme::fraction<int>(5, 8)) == 0.625 && ieme::to_float(ieme::fraction<int>(1, 4)) == 0.25f && ieme::to_long_double(ieme::fraction<int>(-1, 16)) == -0.0625L;",
        "return ieme::floating_point_string_to_fraction<int>(\"2.5\") == ieme::fraction<int>(5, 2);",
        'return ieme::floating_point_string_to_fraction<long>("0x1.8p-1") == ieme::fraction<long>(3, 4) && ieme::floating_point_string_to_fraction<long>("1").den() == 0;',
        'return ieme::to_fraction<long>(1e300 * 1e300).den() == 0 && ieme::to_fraction<long long>(0x1p-40f).den() == 1L << 40;'],
    "hash.hpp": [
        "return ieme::hash(ieme::fraction<int>(1, 2)) == std::hash<ieme::fraction<int>> {}(ieme::fraction<int>(2, 4));",
        "return ieme::hash(ieme::raw_fraction<int>(1, 2)) == std::hash<ieme::raw_fraction<int>> {}(ieme::raw_fraction<int>(1, 2));",
        "return ieme::hash(ieme::mixed_number<int>(2)) == std::hash<ieme::mixed_number<int>> {}(ieme::mixed_number<int>(2));",
        'return ieme::hash(ieme::fraction<long>(2, -4)) == ieme::hash(ieme::fraction<long>(-1, 2)) && ieme::hash(ieme::mixed_number<int, long>(1, ieme::fraction<long>(2, 4))) == ieme::hash(ieme::mixed_number<int, long>(1, ieme::fraction<long>(1, 2)));'],
    "chrono.hpp": [
        "ieme::chrono::seconds s(ieme::fraction<std::chrono::seconds::rep>(1, 2)); ieme::chrono::milliseconds m = s; return m.count() == 500;",
        "return ieme::chrono::to_fractional(std::chrono::minutes(2)) == ieme::chrono::seconds(120);",
        "using C = ieme::chrono::clock_wrapper<std::chrono::steady_clock, std::ratio<1>>; C::time_point t = C::now(); return C::is_steady && t <= C::now();",
        'return ieme::chrono::seconds::max().count().num() > 1000 && ieme::chrono::hours::min().count().num() < 0 && ieme::chrono::minutes::zero().count() == 0;',
        'ieme::chrono::hours h(ieme::fraction<std::chrono::hours::rep>(1, 2)); ieme::chrono::nanoseconds n = h; return n.count() == 1800000000000L && h < ieme::chrono::minutes(31);',
        'std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> t(std::chrono::seconds(3)); return ieme::chrono::to_fractional(t).time_since_epoch().count() == 3;',
        'ieme::chrono::duration<int, std::milli> d(3); auto q = d / ieme::chrono::duration<int, std::milli>(2); return q.num() == 3 && q.den() == 2;'],
}
DOC = [  # what the documentation shows, with <ieme/ieme.hpp> alone
    "ieme::fraction<int> f {1, 2}; f = 3/4_fr; f = 1/2_fr + 3/4_fr; return f == 5/4_fr;",
    "ieme::fraction<int> f = 1/2_fr - 4/5_fr; return f.num() == -3 && f.den() == 10;",
    "ieme::fraction<int> f = 3/4_fr * 3/7_fr; return f == 9/28_fr;",
    "ieme::fraction<int> f; f = 8; return f.num() == 8 && f.den() == 1;",
    "ieme::fraction<int> f; f = 0.759_dec; return f.num() == 759 && f.den() == 1000;",
    "return reciprocal(3/4_fr) == 4/3_fr && reduce(16/24_fr).num() == 2;",
    "int i = round(19/10_fr); return i == 2 && trunc(19/10_fr) == 1 && floor(19/10_fr) == 1 && ceil(19/10_fr) == 2;",
    "auto f1 = fraction<int>(); auto f2 = fraction<int>(3, 4); auto f3 = fraction<int>(-2); auto f4 = fraction<int>(std::milli{}); return f1 == 0 && f2 == 3/4_fr && f3 == -2 && f4 == 1/1000_fr;",
    "auto f5 = -2/7_fr; auto f6 = 7U/9_fr; auto f7 = 2.37_dec; return f5.num() == -2 && f6.den() == 9u && f7 == 237/100_fr;",
    "return 3/4_fr / (3/2_fr) == 1/2_fr && 4/7_fr % (2/5_fr) == 6/35_fr;",
    "return 1/2_fr == 2/4_fr && !(1/2_fr != 2/4_fr) && 1/2_fr > 1/4_fr && 1/2_fr >= 1/3_fr && 1/2_fr < 3/4_fr && 1/2_fr <= 2/3_fr;",
    "return abs(-4/5_fr) == 4/5_fr && pow2<int>(-3) == 1/8_fr && pow<int>(3, -2) == 1/9_fr;",
    "return is_undefined(2/0_fr) && is_positive(3/4_fr) && is_zero(0/4_fr) && is_negative(-3/4_fr) && is_integer(2/1_fr) && is_unit_fraction(1/3_fr);",
    "return !is_reduced(5/10_fr) && is_proper(1/4_fr) && is_improper(5/4_fr) && are_identical(1/2_fr, 1/2_fr) && are_different(1/2_fr, -1/-2_fr);",
    "auto f1 = to_fraction<int>(0.375f); auto f2 = to_fraction<int>(-2.25); return f1 == 3/8_fr && f2 == -9/4_fr;",
    "auto fl1 = to_float(1/4_fr); auto d1 = to_double(5/8_fr); auto l1 = to_long_double(-1/16_fr); return fl1 == 0.25f && d1 == 0.625 && l1 == -0.0625L;",
    "mixed_number<int> m(7/2_fr); return m.whole() == 3 && hash(1/2_fr) == hash(2/4_fr) && limits<fraction<int>>::max() > 1;",
    "chrono::milliseconds m = chrono::seconds(1/2_fr); return m.count() == 500;",
]
INTERNAL = ["parse_utilities.hpp", "numbers.hpp"]  # their contents may be renamed or move
EVERYTHING = [h for h in OWN if h != "parse_utilities.hpp"]


def public_headers():
    return sorted(f for f in os.listdir(os.path.join(INCLUDE, "ieme")) if f.endswith((".hpp", ".h")))


class Unit:
    """A translation unit: headers in order, and what it uses."""
    def __init__(self, headers, uses):
        self.headers, self.uses = list(headers), list(uses)

    def source(self, k, main_of=None):
        s = "".join("#include <ieme/%s>\n" % h for h in self.headers)
        for j, (doc, body) in enumerate(self.uses):
            if doc:
                body = "using namespace ieme; using namespace ieme::fraction_literals; " + body
            s += "bool unit%d_%d();\nbool unit%d_%d() { %s }\n" % (k, j, k, j, body)
        s += "int unit%d() { int n = 0; %s return n; }\n" % (
            k, " ".join("n += unit%d_%d() ? 0 : 1;" % (k, j) for j in range(len(self.uses))))
        if main_of is not None:
            s += "".join("int unit%d();\n" % i for i in range(main_of))
            s += "int main() { return %s; }\n" % " + ".join("unit%d()" % i for i in range(main_of))
        return s

    def text(self):
        return "<%s> using %d" % (" ".join(self.headers), len(self.uses))

    def like(self, headers, uses):
        return type(self)(headers, uses)

    def enough(self, headers):
        """Whether these headers provide what the unit uses."""
        return all(b in [x for h in headers for x in OWN.get(h, [])] or "ieme.hpp" in headers
                   for d, b in self.uses if not d) and all("ieme.hpp" in headers for d, b in self.uses if d)


class Bystander(Unit):
    """A translation unit that includes headers and then has code of its own, which must mean what it
    would mean without them.  uses: (scope, name) pairs of entities of its own."""
    def source(self, k, main_of=None):
        layout = "{ char a; double b; char c; long long d; short e; char f; }"
        s = "namespace bystander%d { struct before %s; }\n" % (k, layout)
        s += "".join("#include <ieme/%s>\n" % h for h in self.headers)
        s += "namespace bystander%d { struct after %s; }\n" % (k, layout)
        check = ["sizeof(bystander%d::before) == sizeof(bystander%d::after)" % (k, k),
                 "alignof(bystander%d::before) == alignof(bystander%d::after)" % (k, k)]
        for j, (scope, name) in enumerate(self.uses):
            if scope == "namespace":
                s += "namespace bystander%d_%d { static int %s(int x) { return x + %d; } static bool good() { return %s(1) == %d; } }\n" % (
                    k, j, name, j, name, j + 1)
            elif scope == "global type":
                s += "struct %s { int v; char w; }; namespace bystander%d_%d { static bool good() { %s x {%d, 1}; return x.v == %d && sizeof(x) == 8; } }\n" % (
                    name, k, j, name, j, j)
            elif scope == "global namespace":
                s += "namespace %s { static int v = %d; } namespace bystander%d_%d { static bool good() { return %s::v == %d; } }\n" % (
                    name, j, k, j, name, j)
            else:
                s += "namespace bystander%d_%d { static bool good() { int %s = %d; return %s == %d; } }\n" % (k, j, name, j, name, j)
            check.append("bystander%d_%d::good()" % (k, j))
        # arithmetic of the program itself, its storage and its macros
        s += ("namespace bystander%d { static bool arithmetic() { volatile double z = 0, n = z / z, i = 1 / z; "
              "volatile float f = 16777216.0f; volatile unsigned u = 0; volatile int s = -7; "
              "return n != n && i > 1e308 && f + 1.0f == f && u - 1 == ~0u && s / 2 == -3 && s %% 2 == -1 && (s >> 1) == -4; } "
              "__attribute__((noinline)) static double sum(double x, double y) { return (x + y) - x; } "
              "__attribute__((noinline)) static double fused(double x, double y, double z) { return x * y + z; } "
              "__attribute__((noinline)) static double third(double x, double y) { return x / y; } "
              "__attribute__((noinline)) static bool same(double x, double y) { return x == y; } "
              "__attribute__((noinline)) static double zero(double x) { return x + 0.0; } "
              "static bool floating() { volatile double a = 1e20, b = 1, c = 1 + 0x1p-30, d = -1 - 0x1p-29, e = 5, t = 49, z = 0; "
              "return sum(a, b) == 0 && fused(c, c, d) == 0 && third(e, t) == 0x1.a1f58d0fac688p-4 && !same(z / z, z / z) && 1 / zero(-z) > 0; } "
              "static bool storage() { after x {}; x.d = 1; before y {}; y.d = 1; return !__builtin_memcmp(&x.d, &y.d, sizeof x.d); } }\n"
              "#ifdef NDEBUG\n#define BYSTANDER_AFTER 1\n#else\n#define BYSTANDER_AFTER 0\n#endif\n") % k
        s = "#ifdef NDEBUG\n#define BYSTANDER_BEFORE 1\n#else\n#define BYSTANDER_BEFORE 0\n#endif\n" + s
        check += ["bystander%d::floating()" % k, "bystander%d::storage()" % k, "BYSTANDER_BEFORE == BYSTANDER_AFTER"]
        check.append("bystander%d::arithmetic()" % k)
        s += "int unit%d() { int n = 0; %s return n; }\n" % (k, " ".join("n += (%s) ? 0 : 1;" % c for c in check))
        if main_of is not None:
            s += "".join("int unit%d();\n" % i for i in range(main_of))
            s += "int main() { return %s; }\n" % " + ".join("unit%d()" % i for i in range(main_of))
        return s

    def text(self):
        return "<%s> beside %s" % (" ".join(self.headers), " ".join(n for _, n in self.uses))

    def enough(self, headers):
        return True


# what the language does not leave free
KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t
char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield
decltype default delete do double dynamic_cast else enum explicit export extern false final float for friend goto
if import inline int long module mutable namespace new noexcept not not_eq nullptr operator or or_eq override
private protected public register reinterpret_cast requires return short signed sizeof static static_assert
static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using
virtual void volatile wchar_t while xor xor_eq main std define defined undef pragma include ifdef ifndef endif
elif error line has_include""".split())
SCOPES = ["namespace", "global type", "global namespace", "local"]


def free_names(check):
    """(scope, name) pairs a program may use: identifiers found in the headers, as far as the
    language and the standard library leave them free."""
    names, std = set(), set()
    for f in public_headers():
        text = open(os.path.join(INCLUDE, "ieme", f)).read()
        text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
        std.update(re.findall(r"#\s*include\s*<(?!ieme)([\w./]+)>", text))
        text = re.sub(r"#\s*include[^\n]*", " ", text)
        names.update(n for n in re.findall(r"[A-Za-z_]\w*", text)
                     if not n.startswith(("_", "IEME_", "ieme")) and "__" not in n and len(n) > 1)
    names = sorted(names - KEYWORDS)
    check.std_headers = sorted(std)
    probe = os.path.join(check.build, "names.cpp")
    out = []
    for scope in SCOPES:
        left = list(names)
        while left:  # until the whole file compiles: an error can hide others
            lines = ["".join("#include <%s>\n" % h for h in sorted(std))]
            first = len(std) + 1
            for j, n in enumerate(left):
                lines.append({"namespace": "namespace b%d { static int %s(int x) { return x; } }" % (j, n),
                              "global type": "struct %s { int v; char w; }; static int b%d() { %s x {1, 1}; return x.v; }" % (n, j, n),
                              "global namespace": "namespace %s { static int v = 1; } static int b%d() { return %s::v; }" % (n, j, n),
                              "local": "static int b%d() { int %s = 1; return %s; }" % (j, n, n)}[scope] + "\n")
            open(probe, "w").write("".join(lines))
            bad, failed = set(), False
            for cxx in (CXX, "clang++"):
                r = sh([cxx, "-std=c++23", "-w", "-fsyntax-only", "-fdiagnostics-color=never"]
                       + (["-fmax-errors=0"] if cxx == CXX else ["-ferror-limit=0"]) + [probe], timeout=300)
                failed |= r.returncode != 0
                for m in re.finditer(r"names\.cpp:(\d+)", r.stdout.decode(errors="replace")):
                    bad.add(int(m.group(1)) - first)
            if not failed:
                break
            rest = [n for j, n in enumerate(left) if j not in bad]
            left = rest if len(rest) < len(left) else []
        out += [(scope, n) for n in left]
    os.remove(probe)
    return out


def blameless(check, units, syntax_only):
    """Whether own code that fails beside the headers also fails without them, so that they are not the reason."""
    if not any(isinstance(u, Bystander) for u in units):
        return False
    for u in [u for u in units if isinstance(u, Bystander)]:
        text = "".join("#include <%s>\n" % h for h in check.std_headers) + u.like([], u.uses).source(0, 1)
        if not attempt(check, "alone", [text], syntax_only)[0]:
            return True
    return False


def sources(units):
    n = len(units)
    return [u.source(k, n if k == 0 else None) for k, u in enumerate(units)]


def attempt(check, name, srcs, mode=0):
    """(ok, log) of building and running the program."""
    syntax_only, other = mode & 1, mode & 2  # other: with the other compiler
    objs, log = [], ""
    paths = []
    try:
        for k, s in enumerate(srcs):
            p = os.path.join(check.build, "%s_%d.cpp" % (name, k))
            paths.append(p)
            with open(p, "w") as f:
                f.write(s)
            o = p[:-4] + ".o"
            cmd = ["clang++" if other else CXX, "-std=c++23" if mode & 4 else "-std=gnu++20" if mode & 8 else "-std=c++20",
                   "-w", "-O2" if mode & 32 else "-O0", "-ffp-contract=off", "-fdiagnostics-color=never", "-I", INCLUDE] + (["-DNDEBUG"] if mode & 16 else [])
            for _ in range(3):
                r = sh(cmd + (["-fsyntax-only", p] if syntax_only else ["-c", p, "-o", o]), timeout=300)
                log = r.stdout.decode(errors="replace")
                if r.returncode == 0 or "error:" in log:
                    break
            if r.returncode and other and "error:" in log:
                # refused by the second compiler only: its limits, not a broken header
                if attempt(check, name + "g", [s], 1 + (mode & 60))[0]:
                    return attempt(check, name + "g", srcs, mode - 2)
            if r.returncode:
                return False, log
            objs.append(o)
            paths.append(o)
        if syntax_only:
            return True, ""
        exe = os.path.join(check.build, name)
        paths.append(exe)
        r = sh([CXX] + objs + ["-o", exe])
        if r.returncode:
            return False, r.stdout.decode(errors="replace")
        r = sh([exe], timeout=60)
        return r.returncode == 0, "BAD: the program returned %d" % r.returncode
    finally:
        for p in paths:
            if os.path.exists(p):
                os.remove(p)


def smaller(units):
    for i in range(len(units)):
        if len(units) > 1:
            yield units[:i] + units[i + 1:]
    for i, u in enumerate(units):
        for k in range(len(u.uses)):
            yield units[:i] + [u.like(u.headers, u.uses[:k] + u.uses[k + 1:])] + units[i + 1:]
        for k in range(len(u.headers)):
            rest = u.headers[:k] + u.headers[k + 1:]
            if rest and u.enough(rest):
                yield units[:i] + [u.like(rest, u.uses)] + units[i + 1:]


def shrink(check, units, log, syntax_only):
    """Fewer units, uses and headers, as long as it still fails."""
    def halves(us):
        for i, u in enumerate(us):
            n = len(u.uses)
            if n > 3:
                for part in (u.uses[:n // 2], u.uses[n // 2:]):
                    yield us[:i] + [u.like(u.headers, part)] + us[i + 1:]

    t0 = time.time()
    for rounds in (halves, smaller):
        progress = True
        while progress and time.time() - t0 < 40:
            progress = False
            cand = list(rounds(units))[:24]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(lambda ic: attempt(check, "shr%d" % ic[0], sources(ic[1]), syntax_only),
                                  enumerate(cand)))
            for c, (ok, l2) in zip(cand, res):
                if not ok:
                    units, log, progress = c, l2, True
                    break
    return units, log


def error_key(log):
    m = re.search(r"(multiple definition of|undefined reference to) [`'](\w+::)*", log)
    if m:
        return m.group(1)
    return re.sub(r"\S*_\d+\.\w+|unit\d+(_\d+)?", "", common.first_error(log))[:80]


def uses_of(rng, headers, every=False):
    uses = []
    for h in dict.fromkeys(headers):
        own = OWN.get(h, [])
        if h == "ieme.hpp":
            own = [b for x in EVERYTHING for b in OWN[x]]
            uses += [(True, b) for b in (DOC if every else rng.sample(DOC, 4))]
        k = len(own) if every else rng.randint(1, max(1, min(len(own), 4)))
        uses += [(False, b) for b in rng.sample(own, min(k, len(own)))]
    rng.shuffle(uses)
    return uses


def run(check):
    headers = public_headers()
    for h in INTERNAL:
        OWN[h] = [b for b in OWN[h] if h in headers
                  and attempt(check, "probe", [Unit(["ieme.hpp", h], [(False, b)]).source(0, 1)])[0]]
    missing = [h for h in list(OWN) + ["ieme.hpp"] if h not in headers and h not in INTERNAL]
    if missing:
        check.violation("headers", "property=%s\ntier=%s\nmode=program\nsyntax=0\n---\n%s" % (
            check.pid, check.tier, "===\n" + "".join("#include <ieme/%s>\n" % h for h in missing)),
            "public headers are missing: " + " ".join(missing))
        headers = [h for h in headers if h]
    rng = random.Random("C25-%d" % check.seed)
    jobs = []  # (units, syntax only)
    for h in headers:  # each alone, with all its facilities
        jobs.append(([Unit([h], uses_of(rng, [h], True))], False))
    if check.tier == "thorough":
        for a in headers:
            for b in headers:
                jobs.append(([Unit([a, b], uses_of(rng, [a, b]))], True))
    n_sub, n_link = check.cfg["programs"][0 if check.tier == "quick" else 1]
    for _ in range(n_sub):
        k = rng.choice([2, 2, 3, 3, 4, 5, 7, 10, len(headers)])
        hs = [rng.choice(headers) for _ in range(k)] if rng.random() < .3 else rng.sample(headers, min(k, len(headers)))
        jobs.append(([Unit(hs, uses_of(rng, hs))], True))
    for _ in range(n_link):
        units = []
        for _ in range(rng.randint(2, 4)):
            k = rng.choice([1, 1, 2, 3, 5])
            hs = rng.sample(headers, min(k, len(headers)))
            if rng.random() < .5:
                hs.append("ieme.hpp") if rng.random() < .5 else hs.insert(0, "ieme.hpp")
            units.append(Unit(hs, uses_of(rng, hs)))
        jobs.append((units, False))
    # the program's own code beside the headers: no name may be used twice in one unit
    free = free_names(check)
    for i in range(check.cfg["bystanders"][0 if check.tier == "quick" else 1]):
        k = rng.choice([1, 2, 3, 5, len(headers)])
        hs = ["ieme.hpp"] if i % 4 == 0 else rng.sample(headers, min(k, len(headers)))
        order = list(free)
        rng.shuffle(order)
        uses, used = [], set()
        for scope, name in order:
            if name not in used and len(uses) < 120:
                used.add(name)
                uses.append((scope, name))
        units = [Bystander(hs, uses)]
        if rng.random() < .3:
            hs = rng.sample(headers, 3)
            units.append(Unit(hs, uses_of(rng, hs)))
        jobs.append((units, False))
    # every facility in two units of one program
    for _ in range(2):
        hs = rng.sample(headers, len(headers))
        jobs.append(([Unit(hs, uses_of(rng, hs, True)), Unit(["ieme.hpp"], uses_of(rng, ["ieme.hpp"], True))], False))

    jobs = [(us, int(syn) + (2 if k % 4 == 3 else 0) + (0, 4, 0, 8, 16)[k % 5]
             + (32 if k % 2 and isinstance(us[0], Bystander) else 0)) for k, (us, syn) in enumerate(jobs)]
    deadline = time.time() + (400 if check.tier == "quick" else 9000)

    def one(ij):
        if time.time() > deadline:
            return None
        return attempt(check, "p%d" % ij[0], sources(ij[1][0]), ij[1][1])

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    jobs = [j for j, r in zip(jobs, res) if r]
    res = [r for r in res if r]
    seen, reported, tried = set(), 0, set()
    failing = sorted(((units, syn, log) for (units, syn), (ok, log) in zip(jobs, res) if not ok),
                     key=lambda x: sum(len(u.headers) + len(u.uses) for u in x[0]))
    for units, syn, log in failing:
        kind = error_key(log)
        if kind in tried or reported >= 4 or len(tried) >= 5:
            continue
        tried.add(kind)
        if not attempt(check, "again", sources(units), syn)[0]:
            if blameless(check, units, syn):
                continue
            if not check.toolchain_ok():
                raise HarnessError("compiler failure: " + log[:1500])
            units, log = shrink(check, units, log, syn)
            key = error_key(log)
            if key in seen:
                continue
            seen.add(key)
            reported += 1
            src = "===\n" + "\n===\n".join(sources(units))
            check.violation("headers", "property=%s\ntier=%s\nmode=program\nsyntax=%d\n# %s\n---\n%s" % (
                check.pid, check.tier, syn, " + ".join(u.text() for u in units), src),
                "%s: %s" % (" + ".join(u.text() for u in units), common.first_error(log)))
    texts = {" + ".join(u.text() for u in us) for us, _ in jobs}
    check.coverage.update(
        evaluations=len(jobs), distinct_nontrivial=len([t for t in texts if " " in t.split("> using")[0]]),
        rule="programs of one to four translation units, each including a generated selection of public "
             "headers in a generated order (each header alone as well, all ordered pairs when thorough) and "
             "using facilities of the included headers (or, beside them, own entities whose names are "
             "drawn from the identifiers of the headers); compiled, linked and run; non-trivial: more than one header",
        samples=rng.sample(sorted(texts), min(12, len(texts))), headers=headers,
        labels={"single unit": sum(len(u) == 1 for u, _ in jobs), "several units": sum(len(u) > 1 for u, _ in jobs),
                "the program's own code beside the headers": sum(isinstance(u[0], Bystander) for u, _ in jobs)})


def replay(check, text):
    head, body = text.split("\n---\n", 1)
    ok, log = attempt(check, "replay", body.split("===\n")[1:], int(re.search(r"^syntax=(\d+)", head, re.M).group(1)))
    print(log[:6000])
    print("holds" if ok else "fails")
    return 0 if ok else 1
