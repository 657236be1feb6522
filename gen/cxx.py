"""The integer types of C++ and the arithmetic of the default policy, in Python."""
from math import gcd

# name: (rank, signed, bits)
TYPES = {
    "signed char": (1, True, 8), "unsigned char": (1, False, 8), "char": (1, True, 8),
    "short": (2, True, 16), "unsigned short": (2, False, 16),
    "int": (3, True, 32), "unsigned": (3, False, 32),
    "long": (4, True, 64), "unsigned long": (4, False, 64),
    "long long": (5, True, 64), "unsigned long long": (5, False, 64),
}
REPS = ["int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]


def top(t):
    _, s, b = TYPES[t]
    return 2 ** (b - 1) - 1 if s else 2 ** b - 1


def low(t):
    return -top(t) if TYPES[t][1] else 0


def fits(t, *vs):
    return all(low(t) <= v <= top(t) for v in vs)


def promote(t):
    return t if TYPES[t][0] >= 3 else "int"


def common(a, b):
    """std::common_type_t"""
    if a == b:
        return a
    a, b = promote(a), promote(b)
    if a == b:
        return a
    (ra, sa, ba), (rb, sb, bb) = TYPES[a], TYPES[b]
    if sa == sb:
        return a if ra > rb else b
    if sb:
        a, b, ra, rb, ba, bb = b, a, rb, ra, bb, ba
    # a signed, b unsigned
    if rb >= ra:
        return b
    if ba > bb:
        return a
    return "unsigned long" if a == "long" else "unsigned long long"


def usual(a, b):
    return common(promote(a), promote(b))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def tmod(a, b):
    return a - b * tdiv(a, b)


def int_op(op, a, b):
    """a, b: (type, value); None when out of range."""
    t = usual(a[0], b[0])
    x, y = a[1], b[1]
    if not fits(t, x, y):
        return None
    if op in "/%" and y == 0:
        return None
    v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
         "/": lambda: tdiv(x, y), "%": lambda: tmod(x, y)}[op]()
    return (t, v) if fits(t, v) else None


def lowest(n, d):
    g = gcd(n, d)
    if d == 0:
        return 0, 0
    if d < 0:
        n, d = -n, -d
    return n // g, d // g


def lowest_ignore(n, d):
    g = gcd(n, d)
    return (tdiv(n, g), tdiv(d, g)) if g else (n, d)


POLICIES = {  # name: (safe, reduces input, reduces output)
    "safe": (True, False, False), "safe_reduced_i": (True, True, False),
    "safe_reduced_o": (True, False, True), "safe_reduced_io": (True, True, True),
    "fast": (False, False, False), "fast_reduced_i": (False, True, False),
    "fast_reduced_o": (False, False, True), "fast_reduced_io": (False, True, True),
}


def working_fits(policy, t, op, form, a, b):
    """Do the values a policy works with fit t?  Components of defined operands;
    whole numbers have denominator 1.  form: FF, FR or RF."""
    safe, rin, _ = POLICIES[policy]
    vals = [a[0], a[1], b[0], b[1]]
    if a[1] == 0 or b[1] == 0:
        return False
    if rin:
        if form != "RF":
            a = lowest_ignore(*a)
        if form != "FR":
            b = lowest_ignore(*b)
    (an, ad), (bn, bd) = a, b
    if form == "FF":
        if op in "+-%":
            if safe:
                l = abs(ad * bd) // gcd(ad, bd)
                p, q = tdiv(l, ad), tdiv(l, bd)
                x, y = p * an, q * bn
                vals += [l, p, q, x, y]
            else:
                x, y = an * bd, bn * ad
                vals += [x, y, ad * bd]
            vals += [x + y] if op == "+" else [x - y] if op == "-" else []
        elif op == "*":
            vals += [an * bn, ad * bd]
        elif op == "/":
            vals += [an * bd, ad * bn]
        else:  # comparison
            if safe:
                l = abs(ad * bd) // gcd(ad, bd)
                vals += [l, tdiv(l, ad) * an, tdiv(l, bd) * bn]
            else:
                vals += [an * bd, bn * ad]
    elif form == "FR":
        x = bn * ad
        vals += {"+": [x, an + x], "-": [x, an - x], "*": [an * bn], "/": [ad * bn],
                 "%": [x], "c": [x]}[op]
    else:
        x = an * bd
        vals += {"+": [x, bn + x], "-": [x, x - bn], "*": [an * bn], "/": [x],
                 "%": [x], "c": [x]}[op]
    return fits(t, *vals)


def exact(op, a, b):
    """The exact result in lowest terms, (0, 0) when undefined."""
    (an, ad), (bn, bd) = a, b
    if ad == 0 or bd == 0 or (op in "/%" and bn == 0):
        return 0, 0
    if op == "+":
        return lowest(an * bd + bn * ad, ad * bd)
    if op == "-":
        return lowest(an * bd - bn * ad, ad * bd)
    if op == "*":
        return lowest(an * bn, ad * bd)
    if op == "/":
        return lowest(an * bd, ad * bn)
    (an, ad), (bn, bd) = lowest(an, ad), lowest(bn, bd)
    return lowest(tmod(an * bd, bn * ad), ad * bd)


def gen_mag(rng, m):
    """A magnitude up to m."""
    if m <= 0:
        return 0
    k = rng.randrange(8)
    if k < 3:
        return rng.randint(0, min(m, 20))
    if k == 3:
        return rng.randint(0, min(m, 1000))
    if k == 4:
        return max(0, m - rng.randint(0, min(m, 3)))
    if k == 5:
        p = 2 ** rng.randint(0, m.bit_length() - 1)
        return min(m, max(0, p + rng.randint(-1, 1)))
    return rng.randint(0, min(m, 2 ** rng.randint(1, m.bit_length()) - 1))


def gen_int(rng, t):
    v = gen_mag(rng, top(t))
    return -v if TYPES[t][1] and rng.random() < .4 else v


def spell_int(rng, v, suffix=""):
    """A non-negative integer literal in some base, with separators."""
    base = rng.choice([10, 10, 10, 16, 2, 8])
    if base == 10:
        s = str(v)
    elif base == 16:
        s = "%x" % v
        if rng.random() < .5:
            s = s.upper()
    elif base == 2:
        s = "{:b}".format(v)
    else:
        s = "{:o}".format(v)
    if rng.random() < .25:
        s = "".join(c + ("'" if i + 1 < len(s) and rng.random() < .3 else "") for i, c in enumerate(s))
    pre = {10: "", 16: rng.choice(["0x", "0X"]), 2: rng.choice(["0b", "0B"]), 8: "0"}[base]
    return pre + s + suffix, base


def literal_type(v, base, suffix):
    """The type of an integer literal."""
    s = suffix.lower()
    u, l = "u" in s, s.count("l")
    order = ["int", "unsigned", "long", "unsigned long"] if l == 0 else \
        ["long", "unsigned long"] if l == 1 else ["long long", "unsigned long long"]
    for t in order:
        signed = TYPES[t][1]
        if u and signed:
            continue
        if not u and base == 10 and not signed:
            continue
        if v <= top(t):
            return t
    return None


def spell_typed(rng, t, v):
    """An expression of type t and value v, usable as an operand, or None."""
    sfx = {"int": [""], "unsigned": ["u", "U"], "long": ["l", "L"],
           "unsigned long": ["ul", "UL", "lu", "Ul"], "long long": ["ll", "LL"],
           "unsigned long long": ["ull", "ULL", "llu", "uLL"]}
    if t in sfx and rng.random() < .85:
        suffix = rng.choice(sfx[t])
        text, base = spell_int(rng, abs(v), suffix)
        if literal_type(abs(v), base, suffix) != t:
            return None
        return text if v >= 0 else "-" + text
    if t == "char" and 97 <= v <= 122 and rng.random() < .7:
        return "'%s'" % chr(v)
    text = str(abs(v)) + ("ull" if abs(v) > top("long") else "")
    arg = ("-" if v < 0 else "") + text
    if " " in t or rng.random() < .5:
        return "static_cast<%s>(%s)" % (t, arg)
    return "%s(%s)" % (t, arg)
