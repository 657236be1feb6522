"""C24: the same operation as a constant, at run time, and against the exact value."""
import os
import re

import common
import cxx
from common import Case, Program
from cxx import common as ctype
from cxx import exact, fits, gen_int, gen_mag, lowest, tdiv, top, working_fits

PRELUDE = r"""
#include <ieme/ieme.hpp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <string_view>
#include <unistd.h>
using namespace ieme;
using namespace ieme::literals;
using i128 = __int128;

template <typename T> T hide(T v) { asm volatile("" : : "r"(&v) : "memory"); return v; }

struct wide { unsigned __int128 m; bool neg; constexpr bool operator==(wide const&) const = default; };
constexpr wide mul(i128 a, i128 b)
{
  unsigned __int128 const x = a < 0 ? -(unsigned __int128)a : a, y = b < 0 ? -(unsigned __int128)b : b;
  return {x * y, x * y != 0 && (a < 0) != (b < 0)};
}
template <typename R, typename O>
constexpr bool eq(fraction<R, O> const& f, i128 n, i128 d)
{
  if (d == 0) return f.denominator() == 0;
  return f.denominator() != 0 && mul(f.numerator(), d) == mul(n, f.denominator());
}
template <typename R>
constexpr bool eq(raw_fraction<R> const& f, i128 n, i128 d) { return eq(fraction<R>(f), n, d); }
template <typename T>
  requires std::is_integral_v<T>
constexpr bool eq(T v, i128 n, i128 d) { return n == v; }
template <typename W, typename F, typename O>
constexpr bool eq(mixed_number<W, F, O> const& m, i128 n, i128 d)
{
  if (d == 0) return m.fractional().denominator() == 0;
  i128 const fn = m.fractional().numerator(), fd = m.fractional().denominator();
  return fd != 0 && mul(m.whole() * fd + fn, d) == mul(n, fd);
}
template <typename R, typename P>
constexpr bool eq(std::chrono::duration<R, P> const& v, i128 n, i128 d) { return eq(v.count(), n, d); }

template <typename R, typename O>
bool same(fraction<R, O> const& a, fraction<R, O> const& b)
{
  return a.numerator() == b.numerator() && a.denominator() == b.denominator();
}
template <typename R>
bool same(raw_fraction<R> const& a, raw_fraction<R> const& b)
{
  return a.numerator == b.numerator && a.denominator == b.denominator;
}
template <typename T>
  requires std::is_integral_v<T>
bool same(T a, T b) { return a == b; }
inline bool same(float a, float b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool same(double a, double b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool same(long double a, long double b) { return !std::memcmp(&a, &b, 10); }
template <typename W, typename F, typename O>
bool same(mixed_number<W, F, O> const& a, mixed_number<W, F, O> const& b)
{
  return a.whole() == b.whole() && same(a.fractional(), b.fractional());
}
template <typename R, typename P>
bool same(std::chrono::duration<R, P> const& a, std::chrono::duration<R, P> const& b) { return same(a.count(), b.count()); }

struct Test { bool (*f)(); int n; Test* next; Test(bool (*f)(), int n); };
inline Test* tests;
inline Test::Test(bool (*f_)(), int n_) : f {f_}, n {n_}, next {tests} { tests = this; }
volatile int current = -1;
void report(int) { char b[40]; int k = std::snprintf(b, sizeof b, "BAD %d trap\n", current); if (write(1, b, k)) {} _exit(1); }
#define RUN(k, ...) static Test const t##k {[]() -> bool { return __VA_ARGS__; }, k};
"""
EPILOGUE = r"""
int main()
{
  for (int s : {SIGILL, SIGFPE, SIGSEGV, SIGABRT, SIGTRAP}) signal(s, report);
  alarm(60);
  int bad = 0;
  for (Test* t = tests; t; t = t->next) { current = t->n; if (!t->f()) { bad = 1; std::printf("BAD %d value\n", t->n); } }
  return bad;
}
"""
SAN = ["-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,bounds,return,unreachable,float-cast-overflow",
       "-fsanitize-undefined-trap-on-error"]
POLS = list(cxx.POLICIES)


def c128(v):
    m = abs(v)
    assert m < 2 ** 127
    t = "i128(%dULL)" % m if m < 2 ** 64 else "(i128(%dULL) << 64 | %dULL)" % (m >> 64, m & (2 ** 64 - 1))
    return ("-" if v < 0 else "") + t


class Arg:
    """A constant: C++ text, and its value."""
    def __init__(self, text):
        self.text = text


def whole(t, v):
    return "static_cast<%s>(%s%dULL)" % (t, "-" if v < 0 else "", abs(v)) if v >= 0 else \
        "static_cast<%s>(-%dLL)" % (t, abs(v))


def frac(t, p, v):
    return "fraction<%s, ops::%s>(%s, %s)" % (t, p, whole(t, v[0]), whole(t, v[1]))


def gen_frac(rng, t, limit=None):
    m = top(t) if limit is None else limit
    n, d = gen_mag(rng, m), max(1, gen_mag(rng, m))
    if cxx.TYPES[t][1]:
        n = -n if rng.random() < .4 else n
        d = -d if rng.random() < .3 else d
    return n, d


def halve(rng, vals, ok, tries=300):
    """Shrinks values (list of [n, d]) until ok()."""
    for _ in range(tries):
        if ok():
            return True
        cell = rng.choice(vals)
        k = rng.randrange(len(cell))
        cell[k] = tdiv(cell[k], 2)
        if k == 1 and cell[1] == 0:
            cell[1] = 1
    return ok()


OPS = "+-*/%"


def g_arith(rng, t1, t2, p):
    form = rng.choice(["FF", "FF", "FR", "RF"])
    op = rng.choice(OPS)
    t = ctype(t1, t2)
    a, b = list(gen_frac(rng, t1)), list(gen_frac(rng, t2))
    if form == "RF":
        a[1] = 1
    if form == "FR":
        b[1] = 1
    if not halve(rng, [a, b], lambda: fits(t1, *a) and fits(t2, *b) and fits(t, *(a + b))
                 and (form != "RF" or a[1] == 1) and (form != "FR" or b[1] == 1)
                 and working_fits(p, t, op, form, a, b)):
        return None
    n, d = exact(op, a, b)
    x = frac(t1, p, a) if form[0] == "F" else whole(t1, a[0])
    y = frac(t2, p, b) if form[1] == "F" else whole(t2, b[0])
    return "a %s b" % op, [x, y], (n, d), "arithmetic"


def g_compare(rng, t1, t2, p):
    form = rng.choice(["FF", "FF", "FR", "RF"])
    op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
    t = ctype(t1, t2)
    a, b = list(gen_frac(rng, t1)), list(gen_frac(rng, t2))
    if rng.random() < .4:
        k = rng.randint(1, 9)
        b = [a[0] * k + rng.choice([0, 0, 1]), a[1] * k]
    if form == "RF":
        a[1] = 1
    if form == "FR":
        b[1] = 1
    if not halve(rng, [a, b], lambda: fits(t1, *a) and fits(t2, *b) and fits(t, *(a + b))
                 and (form != "RF" or a[1] == 1) and (form != "FR" or b[1] == 1)
                 and working_fits(p, t, "c", form, a, b)):
        return None
    (an, ad), (bn, bd) = lowest(*a), lowest(*b)
    x, y = an * bd, bn * ad
    v = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    s = frac(t1, p, a) if form[0] == "F" else whole(t1, a[0])
    u = frac(t2, p, b) if form[1] == "F" else whole(t2, b[0])
    return "a %s b" % op, [s, u], (int(v), 1), "comparison"


def g_compound(rng, t1, t2, p):
    op = rng.choice(OPS)
    form = rng.choice(["FF", "FR"])
    a, b = list(gen_frac(rng, t1)), list(gen_frac(rng, t2))
    if form == "FR":
        b[1] = 1
    if not halve(rng, [a, b], lambda: fits(t1, *(a + b)) and fits(t2, *b) and (form != "FR" or b[1] == 1)
                 and working_fits(p, t1, op, form, a, b)):
        return None
    y = frac(t2, p, b) if form == "FF" else whole(t2, b[0])
    n, d = exact(op, a, b)
    if rng.random() < .15 and form == "FF" and t1 == t2:
        if not working_fits(p, t1, op, "FF", a, a):
            return None
        return "[&] { a %s= a; return a; }()" % op, [frac(t1, p, a)], exact(op, a, a), "compound"
    return "[&] { a %s= b; return a; }()" % op, [frac(t1, p, a), y], (n, d), "compound"


def g_unary(rng, t1, t2, p):
    a = gen_frac(rng, t1)
    f = rng.choice(["+a", "-a", "abs(a)", "reciprocal(a)", "reduce(a)", "reduce_normalize_signs(a)",
                    "reduce_ignore_signs(a)", "reduce(a, reduce_mode::ignore_signs)",
                    "normalize_signs(a)", "fraction<%s, ops::%s>(a)" % (t1, rng.choice(POLS)),
                    "reduce(a.raw())", "reciprocal(a.raw())", "normalize_signs(a.raw())",
                    "reduce_ignore_signs(a.raw())"])
    n, d = a
    if f == "-a":
        if not cxx.TYPES[t1][1] and n:
            return None
        n = -n
    elif f.startswith("abs"):
        n, d = abs(n), abs(d)
    elif f.startswith("reciprocal"):
        n, d = d, n
    return f, [frac(t1, p, a)], (n, d), "unary"


def g_query(rng, t1, t2, p):
    a = gen_frac(rng, t1)
    if rng.random() < .3:
        a = (rng.choice([0, 1, a[1], a[0] // 2]), a[1])
    if not fits(t1, *a):
        return None
    n, d = lowest(*a)
    q = {"is_defined": True, "is_undefined": False, "is_positive": n > 0, "is_non_negative": n >= 0,
         "is_zero": n == 0, "is_non_positive": n <= 0, "is_negative": n < 0, "is_integer": d == 1,
         "is_unit_fraction": abs(n) == 1, "is_proper": abs(n) < d, "is_improper": abs(n) >= d,
         "is_reduced_ignore_signs": (abs(a[0]), abs(a[1])) == (abs(n), d),
         "is_reduced": a == (n, d)}
    if rng.random() < .12:
        b = a if rng.random() < .4 else (a[0], gen_frac(rng, t1)[1]) if rng.random() < .5 else gen_frac(rng, t1)
        f = rng.choice(["are_identical", "are_different"])
        raw = ".raw()" if rng.random() < .5 else ""
        return "%s(a%s, b%s)" % (f, raw, raw), [frac(t1, p, a), frac(t1, p, b)], \
            (int((a == b) == (f == "are_identical")), 1), "query"
    f = rng.choice(list(q) + ["is_reduced_ignore_signs"])
    raw = rng.random() < .4
    return "%s(a%s)" % (f, ".raw()" if raw else ""), [frac(t1, p, a)], (int(q[f]), 1), "query"


def small_frac(rng, t, bits):
    m = 2 ** (cxx.TYPES[t][2] - bits)
    return gen_frac(rng, t, m)


def rounded(mode, n, d):
    n, d = lowest(n, d)
    if mode == "trunc":
        return tdiv(n, d)
    if mode == "floor":
        return n // d
    if mode == "ceil":
        return -(-n // d)
    return (2 * n + d) // (2 * d)


def g_round(rng, t1, t2, p):
    a = small_frac(rng, t1, 5)
    mode = rng.choice(["trunc", "floor", "ceil", "round"])
    f = rng.choice(["%s(a)" % mode, "to_whole(a, round_mode::%s)" % mode,
                    "to_whole(a)" if mode == "round" else "%s(a)" % mode])
    return f, [frac(t1, p, a)], (rounded(mode, *a), 1), "rounding"


def g_redenominate(rng, t1, t2, p):
    half = cxx.TYPES[t1][2] // 2
    a = gen_frac(rng, t1, 2 ** (half - 2))
    k = max(1, gen_mag(rng, 2 ** (half - 4)))
    if cxx.TYPES[t1][1] and rng.random() < .3:
        k = -k
    mode = rng.choice(["trunc", "floor", "ceil", "round"])
    f = rng.choice(["%s_redenominate(a, b)" % mode, "redenominate(a, b, round_mode::%s)" % mode])
    n, d = lowest(*a)
    n, d = lowest(n * k, d)
    if mode == "round" and 2 * abs(n) % d == 0 and d == 2:
        want = None  # either neighbour
    else:
        # the multiple of 1/k next to the value
        m = {"floor": "ceil", "ceil": "floor"}.get(mode, mode) if k < 0 else mode
        want = (rounded(m, n, d), k)
    return f, [frac(t1, p, a), whole(t1, k)], want, "redenomination"


def g_pow(rng, t1, t2, p):
    if rng.random() < .4:
        e = rng.randint(0, cxx.TYPES[t1][2] - 2)
        v = 2 ** e
        if rng.random() < .25:
            return "math_utilities::pow2(a)", [whole(t1, e)], (v, 1), "power"
        if rng.random() < .4:
            return "pow2<%s, ops::%s>(a)" % (t1, p), [str(-e)], (1, v), "power"
        return "pow2<%s, ops::%s>(a)" % (t1, p), [str(e)], (v, 1), "power"
    b = gen_mag(rng, rng.choice([12, 100, 70000]))
    if cxx.TYPES[t1][1] and rng.random() < .4:
        b = -b
    e = rng.randint(0, 40)
    while not fits(t1, b ** e):
        e -= 1
    v = b ** e
    if rng.random() < .25:
        return "math_utilities::pow(a, b)", [whole(t1, b), whole(t1, e)], (v, 1), "power"
    if rng.random() < .4 and e:
        return "pow<%s, ops::%s>(a, b)" % (t1, p), [whole(t1, b), str(-e)], (1, v) if v else (0, 0), "power"
    return "pow<%s, ops::%s>(a, b)" % (t1, p), [whole(t1, b), str(e)], (v, 1), "power"


def g_string(rng, t1, t2, p):
    import literals
    node = literals.dec_node(rng, rng.random() < .6)
    text = node.text[:-len("_dec")]
    n, d = node.val[2], node.val[3]
    # conservative: everything involved fits with a wide margin
    lit = text.replace("'", "").lower()
    digits = re.match(r"(0x)?([0-9a-f]*)\.?([0-9a-f]*)", lit)
    if lit.startswith("0x"):
        w, _, rest = lit[2:].partition("p")
        base, eb = 16, 2
    else:
        w, _, rest = lit.partition("e")
        base, eb = 10, 10
    ip, _, fp = w.partition(".")
    e = int(rest or 0)
    den = base ** len(fp)
    num = int(ip or "0", base) * den + int(fp or "0", base)
    del digits
    num, den2 = (num * eb ** e, den) if e >= 0 else (num, den * eb ** -e)
    if max(num, den2, den, eb ** abs(e)) > top(t1):
        return None
    return ("floating_point_string_to_fraction<%s, ops::%s>(a)" % (t1, p),
            ['std::string_view("%s")' % text], (n, d), "string")


def g_invalid(rng, t1, t2, p):
    s = rng.choice(["", ".", "1", "e5", ".e5", "0x1.8", "1..2", "1.5f", " 1.5", "-1.5", "1'.5", "1.'5", "1.5e", "1.5e+",
                    "0x", "0x.p1", "1''0.5", "'1.5", "1.5'", "1e5.5", "0x1p", "0x1.g", "1.a", "+1.0", "1e'5", "1e5'"])
    return ("floating_point_string_to_fraction<%s, ops::%s>(a)" % (t1, p),
            ['std::string_view("%s")' % s], (0, 0), "string")


def g_mixed(rng, t1, t2, p):
    if cxx.TYPES[t1][1] != cxx.TYPES[t2][1]:
        return None
    c = ctype(t1, t2)
    m = 2 ** (min(cxx.TYPES[t][2] for t in (t1, t2)) // 2 - 5)
    a, b = gen_frac(rng, t2, m), gen_frac(rng, t2, m)
    w1, w2 = gen_mag(rng, m), gen_mag(rng, m)
    if cxx.TYPES[t1][1]:
        w1, w2 = (-w1 if rng.random() < .5 else w1), (-w2 if rng.random() < .5 else w2)
    M = "mixed_number<%s, %s, ops::%s>" % (t1, t2, p)
    va, vb = exact("+", (w1, 1), a), exact("+", (w2, 1), b)
    x = "%s(%s, %s)" % (M, whole(t1, w1), frac(t2, p, a))
    y = "%s(%s, %s)" % (M, whole(t1, w2), frac(t2, p, b))
    k = rng.randrange(9)
    if k == 0:
        return "%s(a, b)" % M, [whole(t1, w1), frac(t2, p, a)], va, "mixed"
    if k == 1:
        return "a + b", [x, y], exact("+", va, vb), "mixed"
    if k == 2:
        return "a.as_fraction()", [x], va, "mixed"
    if k == 3:
        return "fraction<%s, ops::%s>(a)" % (c, p), [x], va, "mixed"
    if k == 4:
        if not cxx.TYPES[t1][1]:
            return "+a", [x], va, "mixed"
        return "-a", [x], (-va[0], va[1]), "mixed"
    if k == 5:
        return rng.choice(["a + b", "b + a"]), [x, frac(t2, p, b)], exact("+", va, b), "mixed"
    if k == 6:
        return rng.choice(["a + b", "b + a"]), [x, whole(t1, w2)], exact("+", va, (w2, 1)), "mixed"
    if k == 7:
        return "a.whole()", [x], (tdiv(*va), 1), "mixed"
    return "%s(a)" % M, [frac(t2, p, b)], b, "mixed"


def g_float(rng, t1, t2, p):
    a = gen_frac(rng, t1)
    return rng.choice(["to_float(a)", "to_double(a)", "to_long_double(a)"]), [frac(t1, p, a)], None, "float"


def g_limits(rng, t1, t2, p):
    mixed = rng.random() < .4
    X = "mixed_number<%s, %s, ops::%s>" % (t1, t2, p) if mixed else "fraction<%s, ops::%s>" % (t1, p)
    low, high = (-top(t1) - 1 if cxx.TYPES[t1][1] else 0, 1), (top(t1), 1)
    tiny = (1, top(t2 if mixed else t1))
    f, v = rng.choice([("limits<%s>::min()", low), ("limits<%s>::max()", high), ("limits<%s>::smallest()", tiny),
                       ("limits<%s>::undefined()", (0, 0)), ("std::numeric_limits<%s>::min()", low),
                       ("std::numeric_limits<%s>::lowest()", low), ("std::numeric_limits<%s>::max()", high),
                       ("std::numeric_limits<%s>::epsilon()", tiny),
                       ("std::numeric_limits<%s>::round_error()", None), ("std::numeric_limits<%s>::infinity()", None),
                       ("std::numeric_limits<%s>::signaling_NaN()", None),
                       ("std::numeric_limits<%s>::denorm_min()", None),
                       ("std::numeric_limits<%s>::quiet_NaN()", (0, 0))])
    return f % X, [], v, "limits"


def g_literal(rng, t1, t2, p):
    """The denominator literals, whose operands are constants, or a left operand that is an argument."""
    t1, t2 = rng.choice(["int", "long", "long long"]), rng.choice(["int", "long", "long long"])
    n, d = gen_mag(rng, 2 ** 30) * rng.choice([1, -1]), gen_mag(rng, 2 ** 30)
    k = rng.randrange(6)
    sign = rng.choice(["", "", "+", "-"])
    e = -d if sign == "-" else d
    if k == 0:
        return "(%s%d_fr).value()" % (sign, d), [], (e, 1), "literal"
    if k == 1:
        return "(%sa).value()" % sign, ["%d_fr" % d], (e, 1), "literal"
    if k < 4 or not d:
        return "a / %s%s" % (sign, "%d_fr" % d), [whole(t1, n)], (n, e), "literal"
    m = small_frac(rng, t1, 17)
    d = 1 + d % 2 ** 14
    e = -d if sign == "-" else d
    return "a / %s%d_fr" % (sign, d), [frac(t1, "defaults", m)], (m[0], m[1] * e), "literal"


def g_hash(rng, t1, t2, p):
    return "hash_combine(a, b)", ["std::size_t(%dULL)" % gen_mag(rng, 2 ** 64 - 1) for _ in "ab"], None, "hash"


def g_undefined(rng, t1, t2, p):
    h = 2 ** (cxx.TYPES[t1][2] // 2 - 3)
    a = (gen_mag(rng, h) * (rng.choice([1, -1]) if cxx.TYPES[t1][1] else 1), 0)
    b = gen_frac(rng, t1, 2 ** (cxx.TYPES[t1][2] // 2 - 3))
    k = rng.randrange(4)
    if k == 0:
        x, y = (a, b) if rng.random() < .5 else (b, a)
        return "a %s b" % rng.choice(OPS), [frac(t1, p, x), frac(t1, p, y)], (0, 0), "undefined"
    if k == 1:
        return "a %s b" % rng.choice("/%"), [frac(t1, p, b), frac(t1, p, (0, b[1]))], (0, 0), "undefined"
    if k == 2:
        op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
        return "a %s b" % op, [frac(t1, p, a), frac(t1, p, b)], (int(op == "!="), 1), "undefined"
    f = rng.choice(["is_positive", "is_non_negative", "is_zero", "is_non_positive", "is_negative",
                    "is_integer", "is_unit_fraction", "is_defined"])
    return "%s(a)" % f, [frac(t1, p, a)], (0, 1), "undefined"


def g_duration(rng, t1, t2, p):
    t = rng.choice(["int", "long", "long long"])
    m = 2 ** (cxx.TYPES[t][2] // 2 - 6)
    P = rng.choice(["std::ratio<1>", "std::ratio<2, 3>", "std::ratio<4>"])
    a, b = gen_frac(rng, t, m), gen_frac(rng, t, m)
    D = "chrono::duration<%s, %s, ops::%s>" % (t, P, p)
    x, y = "%s(%s)" % (D, frac(t, p, a)), "%s(%s)" % (D, frac(t, p, b))
    k = rng.randrange(7)
    if k == 0:
        op = rng.choice("+-")
        return "a %s b" % op, [x, y], exact(op, a, b), "duration"
    if k == 4:
        q = "std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<%s, %s>>(std::chrono::duration<%s, %s>(%s))" % (
            t, P, t, P, whole(t, a[0]))
        return "chrono::to_fractional(a).time_since_epoch()", [q], (a[0], 1), "duration"
    if k == 5:
        return "-a", [x], (-a[0], a[1]), "duration"
    if k == 6:
        return "%s::zero()" % D, [], (0, 1), "duration"
    if k == 1:
        return "a / b", [x, y], exact("/", a, b), "duration"
    if k == 2:
        d = "std::chrono::duration<%s, %s>(%s)" % (t, P, whole(t, a[0]))
        return "chrono::to_fractional(a)", [d], (a[0], 1), "duration"
    return "a == b", [x, y], (int(lowest(*a) == lowest(*b)), 1), "duration"


def g_object(rng, t1, t2, p):
    """Construction, conversion, assignment, access."""
    F = "fraction<%s, ops::%s>" % (t1, p)
    G = "fraction<%s, ops::%s>" % (t2, p)
    a, b = gen_frac(rng, t1), gen_frac(rng, t1)
    f1, f2 = frac(t1, p, a), frac(t1, p, b)
    k = rng.randrange(12)
    if k == 0:
        return "[&] { a.%s() = b; return a; }()" % rng.choice(["num", "numerator"]), [f1, whole(t1, b[0])], (b[0], a[1]), "object"
    if k == 1:
        return "[&] { a.%s() = b; return a; }()" % rng.choice(["den", "denominator"]), [f1, whole(t1, b[1])], (a[0], b[1]), "object"
    if k == 2:
        return "[&] { a = b; return a; }()", [f1, f2], b, "object"
    if k == 3:
        return "[&] { auto c = a; c.num() = b.num(); return a; }()", [f1, f2], a, "object"
    if k == 4:
        return rng.choice(["a.num()", "a.numerator()", "a.raw().numerator"]), [f1], (a[0], 1), "object"
    if k == 5:
        return rng.choice(["a.den()", "a.denominator()", "a.raw().denominator"]), [f1], (a[1], 1), "object"
    if k == 6:
        if not fits(t2, *a):
            return None
        return rng.choice(["[&] { %s c = a; return c; }()", "%s(a)", "static_cast<%s>(a)"]) % G, [f1], a, "object"
    if k == 7:
        if not fits(t2, *a):
            return None
        return "raw_fraction<%s>(a.raw())" % t2, [f1], a, "object"
    if k == 8:
        n, d = gen_mag(rng, 2 ** 30), max(1, gen_mag(rng, 2 ** 30))
        if cxx.TYPES[t1][1] and rng.random() < .4:
            n = -n
        return rng.choice(["%s(a)", "[&] { %s c = a; return c; }()"]) % F, ["std::ratio<%d, %d> {}" % (n, d)], (n, d), "object"
    if k == 9:
        return "%s(a)" % F, ["raw_fraction<%s>(%s, %s)" % (t1, whole(t1, a[0]), whole(t1, a[1]))], a, "object"
    if k == 10:
        return rng.choice(["%s(a)", "[&] { %s c = a; return c; }()", "[&] { %s c; c = a; return c; }()"]) % F, \
            [whole(t1, a[0])], (a[0], 1), "object"
    return "[](auto x) { %s c; c.num() += x; return c; }(a)" % F, [whole(t1, a[0])], (a[0], 1), "object"


GENS = [(g_arith, 8), (g_object, 2.5), (g_compare, 4), (g_compound, 3), (g_unary, 3), (g_query, 3), (g_round, 4),
        (g_redenominate, 3), (g_pow, 3), (g_string, 2), (g_invalid, .5), (g_mixed, 4), (g_float, 2),
        (g_limits, 2), (g_literal, 1.5), (g_hash, .3), (g_undefined, 1.5), (g_duration, 1.5)]


def one(rng):
    g = rng.choices([x for x, _ in GENS], [w for _, w in GENS])[0]
    for _ in range(40):
        t1 = rng.choice(cxx.REPS)
        t2 = rng.choice([t1, t1, rng.choice(cxx.REPS)])
        r = g(rng, t1, t2, rng.choice(POLS))
        if r:
            return r
    return one(rng)


def case_of(k, r):
    expr, args, want, label = r
    names = "ab"[:len(args)]
    params = ", ".join("auto " + n for n in names)
    fn = "[](%s) { return %s; }" % (params, expr)
    line = "constexpr auto f%d = %s; constexpr auto c%d = f%d(%s); " % (k, fn, k, k, ", ".join(args))
    test = "same(f%d(%s), f%d(%s))" % (k, ", ".join("hide(%s)" % a for a in args), k, ", ".join(args))
    test = "same(f%d(%s), decltype(f%d(%s))(c%d))" % (k, ", ".join("hide(%s)" % a for a in args), k, ", ".join(args), k)
    if want is not None:
        line += "static_assert(eq(c%d, %s, %s)); " % (k, c128(want[0]), c128(want[1]))
    line += "RUN(%d, %s)" % (k, test)
    text = "%s with %s" % (expr, ", ".join(args))
    if want is not None:
        text += " = " + ("undefined" if want[1] == 0 else "%d/%d" % want)
    return Case(line, text, False, (label,))


def make(i, rng):
    cases = []
    k = 0
    while len(cases) < 220:
        cases.append(case_of(k, one(rng)))
        k += 1
    flags = SAN + [rng.choice(["-O0", "-O1", "-O2", "-O2"])]
    return Program(PRELUDE, cases, flags, "run", EPILOGUE)


def run(check):
    n = check.cfg["batches"][0 if check.tier == "quick" else 1]
    common.run_batches(
        check, make, n,
        "generated programs in which each operation (all policies and representations) is evaluated "
        "as a constant, checked against the exact value, and again at run time with hidden "
        "operands under the sanitizer, required to be identical")


replay = common.replay
