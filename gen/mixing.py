"""C27: operators between fractions of generated policies and representations."""
import re

import common
import cxx
from common import Case, Program

REPS = cxx.REPS + ["short", "signed char", "unsigned short", "unsigned char", "char", "std::int64_t",
                   "std::uint32_t", "std::intmax_t"]
NAMED = list(cxx.POLICIES)
ARITH = ["+", "-", "*", "/", "%"]
COMPOUND = ["+=", "-=", "*=", "/=", "%="]
COMPARE = ["==", "!=", "<", "<=", ">", ">="]
QUALIFIERS = ["L&", "L const&", "L", "L&&"]

PRELUDE = r"""
#include <ieme/fraction.hpp>
#include <ieme/mixed_number.hpp>
#include <cstdint>
#include <type_traits>
#include <utility>
using namespace ieme;
enum class op { %(names)s };
template <op O, typename L, typename R>
constexpr bool accepts()
{
%(accepts)s
}
template <op O, typename L, typename R>
using result = decltype([](auto&& l, auto&& r) -> decltype(auto) {
%(result)s
}(std::declval<L>(), std::declval<R>()));
template <typename T> void take(T);
template <typename T> void take_ref(T const&);
template <typename From, typename To>
concept passes = requires(From const& x) { take<To>(x); } || requires(From const& x) { take_ref<To>(x); };
template <typename From, typename To>
concept list_initialises = requires(From const& x) { take<To>({x}); };
"""
OPS = list(zip(["add", "sub", "mul", "div", "mod"], ARITH)) + \
    list(zip(["add_to", "sub_from", "mul_by", "div_by", "mod_by"], COMPOUND)) + \
    list(zip(["eq", "ne", "lt", "le", "gt", "ge"], COMPARE))
NAMES = {s: n for n, s in OPS}
PRELUDE = PRELUDE % {
    "names": ", ".join(n for n, _ in OPS),
    "accepts": "".join("  if constexpr (O == op::%s) return requires(L l, R r) { static_cast<L>(l) %s static_cast<R>(r); };\n"
                       % (n, s) for n, s in OPS),
    "result": "".join("  if constexpr (O == op::%s) return (static_cast<L>(l) %s static_cast<R>(r));\n" % (n, s)
                      for n, s in OPS)}


class World:
    """A few user-defined policies and the types built from policies."""
    def __init__(self, rng):
        self.decls, self.users = [], []
        for k in range(rng.randint(1, 4)):
            name = "user%d" % k
            self.decls.append("struct %s : %s {};" % (name, self.policy(rng, 1)))
            self.users.append(name)
        self.prelude = PRELUDE + "\n".join(self.decls) + "\n"

    def policy(self, rng, depth=2):
        """Spelling of a policy."""
        k = rng.random()
        if k < .5 or depth == 0:
            return "ops::" + rng.choice(NAMED)
        if k < .65 and self.users:
            return rng.choice(self.users)
        if k < .7:
            return "ops::defaults"
        wrap = rng.choice(["reduced_input", "reduced_output"])
        mode = rng.choice(["", ", reduce_mode::ignore_signs", ", reduce_mode::normalize_signs"])
        return "ops::%s<%s%s>" % (wrap, self.policy(rng, depth - 1), mode)

    def pair(self, rng):
        a = self.policy(rng)
        if rng.random() < .35:  # closely related ones
            b = rng.choice(["ops::reduced_input<%s>", "ops::reduced_output<%s>",
                            "ops::reduced_input<%s, reduce_mode::normalize_signs>",
                            "ops::reduced_output<%s, reduce_mode::ignore_signs>"]) % a
            return rng.choice([(a, b), (b, a)])
        return a, self.policy(rng)


def mixed_case(rng, w):
    """Distinct policies: rejected.  The policies may be the same type by another name; the case then says
    nothing."""
    p, q = w.pair(rng)
    if rng.random() < .25:
        p, q = rng.sample(["ops::" + n for n in NAMED], 2)
    a = rng.choice(REPS)
    b = a if rng.random() < .3 else rng.choice(REPS)
    l, r = "fraction<%s, %s>" % (a, p), "fraction<%s, %s>" % (b, q)
    same = "std::is_same_v<%s, %s>" % (p, q)
    k = rng.random()
    if k < .7:
        op = rng.choice(ARITH + COMPOUND + COMPARE)
        lq = "&" if op in COMPOUND else rng.choice(["&", " const&", "&&"])
        rq = rng.choice(["&", " const&", "&&"])
        cond = "accepts<op::%s, %s%s, %s%s>()" % (NAMES[op], l, lq, r, rq)
        text, label = "%s %s %s" % (l, op, r), "operator" + op
    elif k < .8:
        cond = "std::is_convertible_v<%s, %s>" % (l, r)
        text, label = "implicit conversion %s to %s" % (l, r), "convertible"
    elif k < .86:
        cond = "std::is_assignable_v<%s&, %s>" % (r, l)
        text, label = "assignment of %s to %s" % (l, r), "assignable"
    elif k < .94:
        cond = rng.choice(["passes<%s, %s>", "list_initialises<%s, %s>"]) % (l, r)
        text, label = "passing %s for %s" % (l, r), "argument"
    else:
        m = "mixed_number<%s, %s, %s>" % (b, rng.choice(REPS), q)
        cond = "std::is_convertible_v<%s, %s>" % (l, m)
        text, label = "implicit conversion %s to %s" % (l, m), "mixed number"
    c = Case("static_assert(%s || !%s);" % (same, cond), text + " is rejected", p == q, (label,))

    def smaller():
        simple = [n for n in ("user0", "user1", "user2", "user3", "ops::fast", "ops::safe") if n in w.users or n[0] == "o"]
        res = []
        for t in REPS:
            if t != "int" and "fraction<%s, " % t in c.line:
                res.append((("fraction<%s, " % t), "fraction<int, "))
        for x in (p, q):
            for y in simple:
                if len(y) < len(x):
                    res.append((x, y))
        return shrunk(c, res)

    def shrunk(c, res):
        out = []
        for x, y in res:
            pat = re.escape(x) + ("" if x[-1] == " " else r"(?!\w)")
            new = re.sub(pat, y, c.line)
            if new != c.line:
                n = Case(new, re.sub(pat, y, c.text), False, c.labels)
                n.smaller = lambda n=n, x=x, y=y: shrunk(n, [(u.replace(x, y), v) for u, v in res if u != x])
                out.append(n)
        return out
    c.smaller = smaller
    return c


def equal_case(rng, w):
    p = w.policy(rng)
    a = rng.choice(REPS)
    b = a if rng.random() < .3 else rng.choice(REPS)
    l, r = "fraction<%s, %s>" % (a, p), "fraction<%s, %s>" % (b, p)
    k = rng.random()
    if k < .7:
        whole = rng.random() < .25
        op = rng.choice(ARITH + COMPOUND + COMPARE)
        left, right = l, r
        lt, rt = (a, b)
        if whole:
            if op in COMPOUND or rng.random() < .5:
                right = b
            else:
                left = a
        lq = "&" if op in COMPOUND else rng.choice(["&", " const&", "&&"])
        rq = rng.choice(["&", " const&", "&&"])
        if op in COMPOUND:
            want = "%s&" % l
        elif op in COMPARE:
            want = "bool"
        else:
            want = "fraction<std::common_type_t<%s, %s>, %s>" % (lt, rt, p)
        t = "op::%s, %s%s, %s%s" % (NAMES[op], left, lq, right, rq)
        line = "static_assert(accepts<%s>() && std::is_same_v<std::remove_const_t<result<%s>>, %s>);" % (t, t, want)
        text, label = "%s %s %s gives %s" % (left, op, right, want), "equal policies" + (", whole" if whole else "")
    elif k < .85:
        line = "static_assert(std::is_convertible_v<%s, %s> && std::is_assignable_v<%s&, %s> && passes<%s, %s>);" % (
            l, r, r, l, l, r)
        text, label = "%s converts implicitly to %s" % (l, r), "equal policies, conversion"
    else:
        q = w.policy(rng)
        r = "fraction<%s, %s>" % (b, q)
        line = "static_assert(std::is_constructible_v<%s, %s>);" % (r, l)
        text, label = "%s converts explicitly to %s" % (l, r), "explicit conversion"
    return Case(line, text, False, (label,))


def make(i, rng):
    w = World(rng)
    return Program(w.prelude, [mixed_case(rng, w) for _ in range(200)] + [equal_case(rng, w) for _ in range(100)])


def run(check):
    n = check.cfg["batches"][0 if check.tier == "quick" else 1]
    common.run_batches(
        check, make, n,
        "generated programs asking whether operators, conversions, assignments and arguments between fractions "
        "of two policies (named, composed, user-defined) and random representations are available, and for equal "
        "policies the result types; non-trivial: equal policies, or policies with different spellings;")


replay = common.replay
