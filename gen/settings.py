"""C26: the same generated programs under every IEME_DEFAULT_OPS_* setting."""
import common
import cxx
from common import Case, Program
from constants import c128, rounded, whole
from cxx import exact, gen_mag, lowest, tdiv

SETTINGS = [None] + list(cxx.POLICIES)

PRELUDE = r"""
#include <ieme/ieme.hpp>
#include <type_traits>
using namespace ieme;
using namespace ieme::literals;
using i128 = __int128;
using expected = ieme::ops::%s;
struct wide { unsigned __int128 m; bool neg; constexpr bool operator==(wide const&) const = default; };
constexpr wide mul(i128 a, i128 b)
{
  unsigned __int128 const x = a < 0 ? -(unsigned __int128)a : a, y = b < 0 ? -(unsigned __int128)b : b;
  return {x * y, x * y != 0 && (a < 0) != (b < 0)};
}
template <typename R, typename O>
constexpr bool eq(fraction<R, O> const& f, i128 n, i128 d)
{
  static_assert(std::is_same_v<O, expected>, "the default policy");
  return f.denominator() != 0 && mul(f.numerator(), d) == mul(n, f.denominator());
}
template <typename T>
  requires std::is_integral_v<T>
constexpr bool eq(T v, i128 n, i128 d) { return n == v; }
template <typename W, typename F, typename O>
constexpr bool eq(mixed_number<W, F, O> const& m, i128 n, i128 d)
{
  static_assert(std::is_same_v<O, expected>, "the default policy");
  i128 const fn = m.fractional().numerator(), fd = m.fractional().denominator();
  return fd != 0 && mul(m.whole() * fd + fn, d) == mul(n, fd);
}
template <typename R, typename P>
constexpr bool eq(std::chrono::duration<R, P> const& v, i128 n, i128 d) { return eq(v.count(), n, d); }
template <typename F>
constexpr bool parts(F const& f, i128 n, i128 d) { return f.numerator() == n && f.denominator() == d; }
"""

TYPES = [
    ("ieme::ops::defaults", "expected"),
    ("fraction<%(t)s>::ops_type", "expected"), ("fraction<%(t)s>", "fraction<%(t)s, expected>"),
    ("mixed_number<%(t)s>", "mixed_number<%(t)s, %(t)s, expected>"),
    ("mixed_number<%(t)s, %(u)s>::ops_type", "expected"),
    ("chrono::duration<%(t)s, std::milli>", "std::chrono::duration<fraction<%(t)s, expected>, std::milli>"),
    ("chrono::duration_like<std::chrono::duration<%(t)s, std::ratio<3>>>",
     "std::chrono::duration<fraction<%(t)s, expected>, std::ratio<3>>"),
    ("chrono::nanoseconds::rep", "fraction<std::chrono::nanoseconds::rep, expected>"),
    ("chrono::microseconds::rep::ops_type", "expected"), ("chrono::milliseconds::rep::ops_type", "expected"),
    ("chrono::seconds::rep::ops_type", "expected"), ("chrono::minutes::rep::ops_type", "expected"),
    ("chrono::hours::rep::ops_type", "expected"),
    ("chrono::time_point<std::chrono::steady_clock, %(t)s, std::ratio<1>>",
     "std::chrono::time_point<std::chrono::steady_clock, std::chrono::duration<fraction<%(t)s, expected>, std::ratio<1>>>"),
    ("chrono::time_point_like<std::chrono::steady_clock::time_point>::rep::ops_type", "expected"),
    ("chrono::clock_wrapper<std::chrono::steady_clock>::ops_type", "expected"),
    ("chrono::clock_wrapper<std::chrono::system_clock, std::ratio<1>>::rep::ops_type", "expected"),
    ("decltype(%(t)s(1)/2_fr)", "fraction<%(t)s, expected>"),
    ("decltype(1.5_dec)", "fraction<std::intmax_t, expected>"),
    ("decltype(1_fr)::ops_type", "expected"), ("decltype(-1_fr)::ops_type", "expected"),
    ("decltype(to_fraction<%(t)s>(1.5))", "fraction<%(t)s, expected>"),
    ("decltype(to_fraction<%(t)s>(1.5f))", "fraction<%(t)s, expected>"),
    ("decltype(floating_point_string_to_fraction<%(t)s>(\"1.5\"))", "fraction<%(t)s, expected>"),
    ("decltype(pow2<%(t)s>(3))", "fraction<%(t)s, expected>"),
    ("decltype(pow<%(t)s>(%(t)s(3), 2))", "fraction<%(t)s, expected>"),
    ("decltype(chrono::to_fractional(std::chrono::seconds(1)))::rep::ops_type", "expected"),
    ("decltype(chrono::to_fractional(std::chrono::steady_clock::time_point()))::rep::ops_type", "expected"),
]


def type_case(rng):
    a, b = rng.choice(TYPES)
    d = {"t": rng.choice(cxx.REPS), "u": rng.choice(cxx.REPS)}
    if a.startswith("decltype(%(t)s(1)") and " " in d["t"] or "pow<%(t)s>(%(t)s" in a:
        a = a.replace("%(t)s(1)", "static_cast<%(t)s>(1)").replace("%(t)s(3)", "static_cast<%(t)s>(3)")
    a, b = a % d, b % d
    return Case("static_assert(std::is_same_v<%s, %s>);" % (a, b), "%s is %s" % (a, b), False, ("type",))


LIMIT = 2 ** 58


class Val:
    """An expression, its exact value and bounds of its components under any policy."""
    def __init__(self, text, value, bn, bd, kids=(), kind="atom"):
        self.text, self.value, self.bn, self.bd = text, value, bn, bd
        self.kids, self.kind = list(kids), kind


def atom(rng):
    k = rng.randrange(5)
    n, d = rng.randint(-40, 40), rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 30, 35, 60])
    if k == 0:
        return Val("(%dL/%d_fr)" % (n, d), lowest(n, d), abs(n), d)
    if k == 1:
        e = rng.randint(0, 3)
        m = rng.randint(0, 4000)
        text = "%d.%s" % (m // 10 ** e, str(m % 10 ** e).zfill(e) if e else "")
        return Val(text + "_dec", lowest(m, 10 ** e), max(m, 10 ** e) * 10 ** e, 10 ** e * 10 ** e)
    if k == 2:
        return Val("fraction<long>(%d)" % n, (n, 1), abs(n), 1)
    if rng.random() < .3:
        n, d = n * d, d * d  # unreduced
    if rng.random() < .3:
        d = -d
    return Val("fraction<long>(%d, %d)" % (n, d), lowest(n, d), abs(n), abs(d))


def combine(rng, a, b):
    op = rng.choice("+-*/%+-*")
    if op in "/%" and b.value[0] == 0:
        return None
    v = exact(op, a.value, b.value)
    if op in "+-%":
        bn, bd = a.bn * b.bd + b.bn * a.bd, a.bd * b.bd
    elif op == "*":
        bn, bd = a.bn * b.bn, a.bd * b.bd
    else:
        bn, bd = a.bn * b.bd, a.bd * b.bn
    if max(bn, bd) > LIMIT:
        return None
    return Val("(%s %s %s)" % (a.text, op, b.text), v, bn, bd, [a, b], "bin")


def tree(rng, size):
    v = atom(rng)
    for _ in range(size):
        r = combine(rng, v, atom(rng)) if rng.random() < .6 else combine(rng, atom(rng), v)
        v = r or v
    if rng.random() < .2:
        f = rng.choice(["-", "reciprocal", "reduce", "abs", "reduce_ignore_signs", "+"])
        n, d = v.value
        if f == "reciprocal" and n == 0:
            return v
        w = {"-": (-n, d), "reciprocal": lowest(d, n) if n else (0, 0), "reduce": (n, d), "abs": (abs(n), d),
             "reduce_ignore_signs": (n, d), "+": (n, d)}[f]
        v = Val("%s(%s)" % (f, v.text), w, max(v.bn, v.bd), max(v.bn, v.bd), [v], "un")
    return v


def value_case(rng):
    v = tree(rng, rng.randint(0, 5))
    n, d = v.value
    k = rng.randrange(10)
    if k < 4:
        line, what, want, label = v.text, "%s", (n, d), "value"
    elif k < 6:
        w = tree(rng, rng.randint(0, 3))
        if rng.random() < .3:
            w = v
        if max(v.bn * w.bd, w.bn * v.bd, v.bd * w.bd) > LIMIT * 8:
            return None
        op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
        x, y = n * w.value[1], w.value[0] * d
        r = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        line, want, label = "%s %s %s" % (v.text, op, w.text), (int(r), 1), "comparison"
    elif k < 8:
        f = rng.choice(["trunc", "floor", "ceil", "round"])
        if max(v.bn, v.bd) > LIMIT // 8:
            return None
        line, want, label = "%s(%s)" % (f, v.text), (rounded(f, n, d), 1), "rounded integer"
    elif k == 8:
        m, e = rng.randint(-50, 50), tree(rng, 1)
        if max(v.bn, v.bd, e.bn, e.bd) > 2 ** 24:
            return None
        want = exact("+", exact("+", (m, 1), (n, d)), e.value)
        line, label = "mixed_number<long>(%d, %s) + %s" % (m, v.text, e.text), "mixed number"
    else:
        e = rng.randint(-8, 8)
        b = rng.randint(1, 12)
        want = lowest(b ** e, 1) if e >= 0 else lowest(1, b ** -e)
        line, label = rng.choice(["pow<long>(%d, %d)" % (b, e), "pow<long>(%d, %d) * 1" % (b, e)]), "power"
    src = "static_assert(eq((%s), %s, %s));" % (line, c128(want[0]), c128(want[1]))

    def smaller():
        res, todo = [], list(v.kids)
        while todo and len(res) < 10:
            kid = todo.pop(0)
            res.append(Case("static_assert(eq((%s), %s, %s));" % (kid.text, c128(kid.value[0]), c128(kid.value[1])),
                            "%s == %d/%d" % (kid.text, *kid.value)))
            todo += kid.kids
        return res
    return Case(src, "%s == %d/%d" % (line, *want), False, (label,), smaller)


def make(i, rng0):
    import random
    setting = SETTINGS[i % len(SETTINGS)]
    rng = random.Random("settings-%d-%d" % (SEED, i // len(SETTINGS)))  # the same program for all
    cases = [type_case(rng) for _ in range(45)]
    while len(cases) < 245:
        c = value_case(rng)
        if c:
            cases.append(c)
    # the named behaviour: what is reduced, and what stays in range
    policy = setting or "safe_reduced_io"
    safe, rin, rout = cxx.POLICIES[policy]
    for _ in range(20):
        p = rng.choice([1009, 65521, 99991, 104729])
        d = rng.choice([6, 10, 12, 15])
        k = rng.randint(20000, 40000)
        if safe:  # only the least common denominator fits int
            big = p * d
            a, b = rng.randint(1, 40), rng.randint(1, 40)
            v = lowest(a + b, big)
            cases.append(Case("static_assert(eq(fraction<int>(%d, %d) + fraction<int>(%d, %d), %d, %d));"
                              % (a, big, b, big, *v), "%d/%d + %d/%d" % (a, big, b, big), False, ("safe",)))
        if rin:  # common factors of the operands do not count
            a, b = rng.randint(1, 40), rng.randint(1, 40)
            v = exact("*", (a, 7), (b, 11))
            cases.append(Case("static_assert(eq(fraction<int>(%d, %d) * fraction<int>(%d, %d), %d, %d));"
                              % (a * k, 7 * k, b * k, 11 * k, *v),
                              "%d/%d * %d/%d" % (a * k, 7 * k, b * k, 11 * k), False, ("input",)))
        if rout:
            a, b = rng.randint(-40, 40), rng.choice([-6, 6, 8, -9])
            c, e = rng.randint(-40, 40), rng.choice([4, 6, -8, 12])
            op = rng.choice("+-*")
            v = exact(op, (a, b), (c, e))
            cases.append(Case("static_assert(parts(fraction<int>(%d, %d) %s fraction<int>(%d, %d), %d, %d));"
                              % (a, b, op, c, e, *v), "%d/%d %s %d/%d" % (a, b, op, c, e), False, ("output",)))
    for c in cases:
        c.text = (setting or "no setting") + ": " + c.text
    flags = ["-DIEME_DEFAULT_OPS_" + setting.upper()] if setting else []
    return Program(PRELUDE % policy, cases, flags)


def run(check):
    global SEED
    SEED = check.seed
    n = check.cfg["batches"][0 if check.tier == "quick" else 1]
    common.run_batches(
        check, make, n,
        "generated programs using only default policies (types of every facility with a default, values, "
        "comparisons, rounded integers, powers, mixed numbers, literals), the same program under each of the "
        "nine settings, against exact values; non-trivial: all")


SEED = 1
replay = common.replay
