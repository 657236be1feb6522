"""C16: generated literal expressions, checked as constants by the compiler."""
import common
import cxx
from common import Case, Program
from cxx import (common as ctype, exact, fits, gen_int, gen_mag, int_op, lowest, spell_int,
                 spell_typed, working_fits)

POLICY = "safe_reduced_io"

PRELUDE = """%s
%s
template <typename Rep, typename F>
constexpr bool is(F const& f, __int128 n, __int128 d)
{
  static_assert(std::is_same_v<F, ieme::fraction<Rep, ieme::ops::defaults>>, "representation or policy");
  return f.numerator() == n && f.denominator() == d;
}
template <typename Rep, typename F>
constexpr bool equals(F const& f, __int128 n, __int128 d)
{
  static_assert(std::is_same_v<F, ieme::fraction<Rep, ieme::ops::defaults>>, "representation or policy");
  return f.denominator() != 0 && (f.denominator() < 0) == (f.denominator() < 0)
         && mul(f.numerator(), d) == mul(n, f.denominator());
}
"""
# exact products of two 64-bit values
MUL = """
struct wide { unsigned __int128 m; bool neg; constexpr bool operator==(wide const&) const = default; };
constexpr wide mul(__int128 a, __int128 b)
{
  unsigned __int128 const x = a < 0 ? -(unsigned __int128)a : a, y = b < 0 ? -(unsigned __int128)b : b;
  return {x * y, x * y != 0 && (a < 0) != (b < 0)};
}
"""
INCLUDES = [
    "#include <ieme/ieme.hpp>", "#include <ieme/fraction_literals.hpp>",
    "#include <ieme/fraction_literals.hpp>", "#include <ieme/fraction_literals.hpp>"]
USINGS = [
    "using namespace ieme;", "using namespace ieme::literals;",
    "using namespace ieme::fraction_literals;", "using namespace ieme::literals::fraction_literals;"]


def cint(v):
    """An integer constant of type __int128."""
    s = "__int128(%dULL)" % abs(v)
    return "-" + s if v < 0 else s


# A value during generation: ("i", type, v) or ("f", rep, n, d); with its text.
class Node:
    """kind: int, frac, dec, neg, pos, bin, paren"""
    def __init__(self, kind, val, text, prec, kids=(), den=None, op=None):
        self.kind, self.val, self.text, self.prec = kind, val, text, prec
        self.kids, self.den, self.op = list(kids), den, op


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2}


def apply(op, a, b):
    """Value of a op b, or None when out of domain."""
    if a[0] == "i" and b[0] == "i":
        r = int_op(op, a[1:], b[1:])
        return r and ("i",) + r
    t = ctype(a[1], b[1])
    if t not in cxx.REPS:
        return None
    form = ("F" if a[0] == "f" else "R") + ("F" if b[0] == "f" else "R")
    x = a[2:] if a[0] == "f" else (a[2], 1)
    y = b[2:] if b[0] == "f" else (b[2], 1)
    if not working_fits(POLICY, t, op, form, x, y):
        return None
    n, d = exact(op, x, y)
    return ("f", t, n, d)


def literal_den(rng, rep):
    """(text, value) of a denominator literal fitting rep."""
    v = gen_mag(rng, min(cxx.top(rep), 2 ** 63 - 1 if rng.random() < .9 else 2 ** 64 - 1))
    if rng.random() < .9 and v == 0:
        v = 1 + rng.randrange(9)
    signs = ""
    neg = False
    if rng.random() < .25:
        signs = rng.choice(["-", "+", "- -", "-+", "+-"])
        if v > 2 ** 63 - 1:
            signs = "+"
        neg = signs.count("-") % 2 == 1
        if neg and not fits(rep, -v):
            signs, neg = "", False
    text, _ = spell_int(rng, v, "_fr")
    return signs + text, -v if neg else v


def typed_int(rng, narrow=True, small=False):
    types = cxx.REPS * 2 + ["int"] * 8 + (list(cxx.TYPES)[:5] if narrow else [])
    while True:
        t = rng.choice(types)
        v = gen_int(rng, t) if not small else rng.randint(-9 if cxx.TYPES[t][1] else 0, 12)
        s = spell_typed(rng, t, v)
        if s is not None:
            return Node("int", ("i", t, v), s, 9)


def dec_node(rng, small=False):
    """A _dec literal in range of intmax_t: whole, fraction digits and scaled value fit."""
    top = cxx.top("long")
    while True:
        base = rng.choice([10, 10, 10, 16])
        prec = 0 if rng.random() < .2 else rng.randint(0, 4 if small else (18 if base == 10 else 15))
        den = base ** prec
        n = rng.randint(0, 300) if small else gen_mag(rng, top)
        w, f = divmod(n, den)
        eb = 10 if base == 10 else 2
        has_exp = base == 16 or rng.random() < .4 or (prec == 0 and rng.random() < .6)
        e = rng.randint(0, 2 if small else 62 if eb == 2 else 18) if has_exp else 0
        eneg = rng.random() < .5
        p = eb ** e
        if max(p, den, n * (1 if eneg else p), den * (p if eneg else 1)) > top:
            continue
        break
    digits = "0123456789abcdef"

    def spell(v, k):
        s = ""
        while v or len(s) < k:
            s = digits[v % base] + s
            v //= base
        return s

    ws, fs = spell(w, 1), spell(f, prec) if prec else ""
    if rng.random() < .5:
        ws, fs = ws.upper(), fs.upper()
    if w == 0 and prec and rng.random() < .4:
        ws = ""
    elif rng.random() < .2:
        ws = "0" * rng.randint(1, 25) + ws
    def seps(s):
        if rng.random() < .75:
            return s
        return "".join(c + ("'" if i + 1 < len(s) and rng.random() < .3 else "") for i, c in enumerate(s))
    text = ("" if base == 10 else rng.choice(["0x", "0X"])) + seps(ws)
    if prec or not has_exp or rng.random() < .5:
        text += "."
    text += seps(fs)
    if has_exp:
        es = str(e)
        if rng.random() < .2:
            es = "0" * rng.randint(1, 12) + es
        text += (rng.choice("eE") if base == 10 else rng.choice("pP")) \
            + ("-" if eneg else rng.choice(["", "", "+"])) + seps(es)
    n2, d2 = lowest(n * (1 if eneg else p), den * (p if eneg else 1))
    return Node("dec", ("f", "long", n2, d2), text + "_dec", 9)


def unary(node, sign):
    v = node.val
    if v[0] == "i":
        t = cxx.promote(v[1])
        x = -v[2] if sign == "-" else v[2]
        if not fits(t, x):
            return None
        val = ("i", t, x)
    else:
        if sign == "-":
            if v[1] not in cxx.REPS or not fits(v[1], -v[2]) or not fits(v[1], -v[3]):
                return None
            n, d = lowest(v[2], v[3])
            val = ("f", v[1], -n, d)
        else:
            val = v
    inner = node.text if node.prec >= 9 and not node.text.startswith(("-", "+")) else "(" + node.text + ")"
    return Node("neg" if sign == "-" else "pos", val, sign + inner, 8, [node])


def paren(node, need):
    return node.text if node.prec > need or (node.prec == need) else "(" + node.text + ")"


def over(left, den):
    """left / d_fr"""
    dt, dv = den
    v = left.val
    lt = left.text if left.prec >= 2 else "(" + left.text + ")"
    text = lt + "/" + dt
    if v[0] == "i":
        if not fits(v[1], dv):
            return None
        return Node("frac", ("f", v[1], v[2], dv), text, 2, [left], den)
    if v[1] not in cxx.REPS or not fits(v[1], dv):
        return None
    r = apply("/", v, ("i", v[1], dv))
    return r and Node("frac", r, text, 2, [left], den)


def binary(op, a, b, sp=" "):
    r = apply(op, a.val, b.val)
    if r is None:
        return None
    p = PREC[op]
    lt = a.text if a.prec >= p else "(" + a.text + ")"
    rt = b.text if b.prec > p else "(" + b.text + ")"
    if sp == "" and op in "+-" and rt.startswith(op):
        sp = " "
    if sp == "" and op in "+-" and lt[-1] in "eEpP":
        sp = " "  # not part of the number
    if op == "/" and sp == "" and rt.startswith("/"):
        sp = " "
    return Node("bin", r, lt + sp + op + sp + rt, p, [a, b], op=op)


def atom(rng):
    k = rng.random()
    small = rng.random() < .7
    if k < .15:
        return dec_node(rng, small)
    n = typed_int(rng, narrow=False, small=small)
    if k < .4:
        return n
    for _ in range(20):
        d = literal_den(rng, n.val[1])
        if small and abs(d[1]) > 20:
            continue
        r = over(n, d)
        if r:
            return r
    return n


def expression(rng, size):
    """A chain or tree of operations, in range."""
    node = atom(rng)
    for _ in range(size):
        for attempt in range(12):
            k = rng.random()
            if k < .25:
                cand = over(node, literal_den(rng, node.val[1])) if node.val[1] in cxx.REPS else None
            elif k < .32:
                cand = unary(node, rng.choice("-+"))
            else:
                other = atom(rng) if rng.random() < .7 else expression(rng, rng.randint(0, 2))
                a, b = (node, other) if rng.random() < .7 else (other, node)
                cand = binary(rng.choice("+-*/%+-*"), a, b, rng.choice(["", " "]))
                if cand and rng.random() < .1:
                    cand = Node("paren", cand.val, "(" + cand.text + ")", 9, [cand])
            if cand and len(cand.text) < 220:
                node = cand
                break
    return node


def case_of(node, labels=()):
    v = node.val
    if v[0] == "i":
        return None
    exactly = node.kind == "frac" and node.kids[0].val[0] == "i"
    if not exactly and v[3] == 0:  # undefined
        line = "static_assert(is_undefined(%s));" % node.text
        text = "%s is undefined" % node.text
    elif exactly:
        line = "static_assert(is<%s>(%s, %s, %s));" % (v[1], node.text, cint(v[2]), cint(v[3]))
        text = "%s == {%d, %d} (%s)" % (node.text, v[2], v[3], v[1])
    else:
        line = "static_assert(equals<%s>(%s, %s, %s));" % (v[1], node.text, cint(v[2]), cint(v[3]))
        text = "%s == %d/%d (%s)" % (node.text, v[2], v[3], v[1])

    def smaller():
        res = []
        todo = list(node.kids)
        while todo:
            k = todo.pop(0)
            c = case_of(k)
            if c:
                res.append(c)
            todo.extend(k.kids)
        for kid_index, kid in enumerate(node.kids):  # replace an operand by a simple one
            for simple in (Node("int", ("i", "int", 1), "1", 9), Node("int", ("i", "int", 2), "2", 9),
                           Node("frac", ("f", "int", 1, 2), "1/2_fr", 2, [Node("int", ("i", "int", 1), "1", 9)], ("2_fr", 2))):
                if len(kid.text) <= len(simple.text):
                    continue
                if node.kind == "bin":
                    kids = list(node.kids)
                    kids[kid_index] = simple
                    n = binary(node.op, kids[0], kids[1])
                elif node.kind == "frac":
                    n = over(simple, node.den)
                else:
                    n = None
                c = n and case_of(n)
                if c:
                    res.append(c)
        if node.den and node.den[0] not in ("1_fr", "2_fr", "3_fr"):
            for d in (1, 2, 3):
                n = over(node.kids[0], ("%d_fr" % d, d))
                c = n and case_of(n)
                if c:
                    res.append(c)
        return res

    plain = exactly and v[1] == "int" and node.text.replace("_fr", "").replace("/", "").isdigit()
    return Case(line, text, plain, labels, smaller)


def make(i, rng):
    inc = INCLUDES[i % len(INCLUDES)]
    pre = "#include <cstdint>\n#include <type_traits>\n" + PRELUDE % (inc, rng.choice(USINGS) + MUL)
    cases = []
    while len(cases) < 250:
        k = rng.random()
        if k < .25:
            n = typed_int(rng)
            node = over(n, literal_den(rng, n.val[1]))
            label = "n/d_fr"
        elif k < .5:
            node, label = dec_node(rng, rng.random() < .3), "_dec"
        else:
            node, label = expression(rng, rng.randint(1, 6)), "expression"
        c = node and case_of(node, (label,))
        if c:
            cases.append(c)
    return Program(pre, cases)


def run(check):
    n = check.cfg["batches"][0 if check.tier == "quick" else 1]
    common.run_batches(
        check, make, n,
        "literals and literal expressions (operators, precedence, unary signs, parentheses, every "
        "integer type and base, separators, decimal and hexadecimal _dec), each required to be a "
        "constant with the exact value by static_assert; non-trivial: not a plain int/int literal")


replay = common.replay
