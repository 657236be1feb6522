// Reference model: exact rationals on components held in __int128, models of
// the values each arithmetic policy works with, and the value generators.
//
// Components of every representation have magnitude < 2^64, so products of two
// fit an unsigned 128-bit magnitude and rationals can be compared exactly.
#ifndef REF_HPP
#define REF_HPP

#include "pbt.hpp"

#include <limits>
#include <string>
#include <utility>
#include <type_traits>
#include <vector>

namespace ref {

using pbt::Ctx;
using pbt::i128;
using pbt::i64;
using pbt::Src;
using pbt::u128;
using pbt::u64;

struct Comp { // a fraction as stored, or a whole number (d == 1)
  i128 n = 0, d = 1;
};

inline bool same(Comp const& a, Comp const& b) { return a.n == b.n && a.d == b.d; }

inline std::string str(Comp const& c)
{
  return pbt::show(c.n) + "/" + pbt::show(c.d);
}
inline std::string str(i128 v) { return pbt::show(v); }

inline u128 mag(i128 v) { return v < 0 ? u128(0) - u128(v) : u128(v); }
inline int sgn(i128 v) { return (v > 0) - (v < 0); }

inline u128 gcd(u128 a, u128 b)
{
  while (b)
  {
    if ((a >> 64) == 0 && (b >> 64) == 0)
    {
      u64 x = u64(a), y = u64(b);
      while (y)
      {
        u64 const t = x % y;
        x = y;
        y = t;
      }
      return x;
    }
    u128 const t = a % b;
    a = b;
    b = t;
  }
  return a;
}

// Representation of components.
struct RepInfo {
  std::string name;
  i128 lo, max; // lo = -max for signed: the most negative value is excluded
  i128 true_min;
  bool is_signed;
  int digits;
  bool fits(i128 v) const { return v >= lo && v <= max; }
};

template <typename T>
char const* rep_name()
{
  if (std::is_same_v<T, int>)
    return "int";
  if (std::is_same_v<T, long>)
    return "long";
  if (std::is_same_v<T, long long>)
    return "llong";
  if (std::is_same_v<T, unsigned>)
    return "uint";
  if (std::is_same_v<T, unsigned long>)
    return "ulong";
  if (std::is_same_v<T, unsigned long long>)
    return "ullong";
  if (std::is_same_v<T, short>)
    return "short";
  if (std::is_same_v<T, signed char>)
    return "schar";
  return "?";
}

template <typename T>
RepInfo rep_info()
{
  using L = std::numeric_limits<T>;
  return {rep_name<T>(),
          L::is_signed ? -i128(L::max()) : 0,
          i128(L::max()),
          i128(L::min()),
          L::is_signed,
          L::digits};
}

// The part of r whose values the common representation c holds.
inline RepInfo within(RepInfo r, RepInfo const& c)
{
  if (!c.is_signed)
  {
    r.is_signed = false;
    r.lo = 0;
  }
  if (r.max > c.max)
    r.max = c.max;
  if (r.lo < c.lo)
    r.lo = c.lo;
  return r;
}

// --- exact rationals ---------------------------------------------------------

// Compares a.n/a.d with b.n/b.d (both defined): -1, 0, 1.  Exact for
// magnitudes below 2^64.
inline int cmp(Comp const& a, Comp const& b)
{
  int const sa = sgn(a.n) * sgn(a.d), sb = sgn(b.n) * sgn(b.d);
  if (sa != sb)
    return sa < sb ? -1 : 1;
  if (sa == 0)
    return 0;
  u128 const l = mag(a.n) * mag(b.d), r = mag(b.n) * mag(a.d);
  int const m = l < r ? -1 : l > r ? 1 : 0;
  return sa * m;
}

inline bool equal(Comp const& a, Comp const& b)
{
  return a.d != 0 && b.d != 0 && cmp(a, b) == 0;
}

// Lowest terms, positive denominator; undefined becomes 0/0.
inline Comp lowest(Comp c)
{
  if (c.d == 0)
    return {0, 0};
  u128 const g = gcd(mag(c.n), mag(c.d));
  i128 n = i128(mag(c.n) / g), d = i128(mag(c.d) / g);
  if (sgn(c.n) * sgn(c.d) < 0)
    n = -n;
  return {n, d};
}

// Lowest terms, each component keeps its sign.
inline Comp lowest_ignore(Comp c)
{
  if (c.d == 0)
    return {0, 0};
  i128 const g = i128(gcd(mag(c.n), mag(c.d)));
  return {c.n / g, c.d / g};
}

// --- checked arithmetic -------------------------------------------------------

struct Fit { // tracks whether all values stay within [lo, max]
  i128 lo, max;
  bool ok = true;
  i128 in(i128 v)
  {
    if (v < lo || v > max)
      ok = false;
    return v;
  }
  i128 mul(i128 a, i128 b)
  {
    i128 r = 0;
    if (__builtin_mul_overflow(a, b, &r))
    {
      ok = false;
      return 0;
    }
    return in(r);
  }
  i128 add(i128 a, i128 b)
  {
    i128 r = 0;
    if (__builtin_add_overflow(a, b, &r))
    {
      ok = false;
      return 0;
    }
    return in(r);
  }
  i128 sub(i128 a, i128 b)
  {
    i128 r = 0;
    if (__builtin_sub_overflow(a, b, &r))
    {
      ok = false;
      return 0;
    }
    return in(r);
  }
  i128 lcm(i128 a, i128 b)
  {
    if (a == 0 || b == 0)
      return 0;
    i128 const x = i128(mag(a)), y = i128(mag(b));
    return mul(x / i128(gcd(u128(x), u128(y))), y);
  }
};

inline Fit fit_of(RepInfo const& r) { return {r.lo, r.max, true}; }

// --- policies -----------------------------------------------------------------

enum Op { PLUS, MINUS, TIMES, DIVIDES, MOD };
enum Form { FF, FR, RF };
inline char const* op_name(int o)
{
  static char const* n[] = {"+", "-", "*", "/", "%"};
  return n[o];
}
inline char const* form_name(int f)
{
  static char const* n[] = {"frac,frac", "frac,int", "int,frac"};
  return n[f];
}

struct PolicyInfo {
  std::string name;
  bool safe;       // least common denominators
  bool in_reduce;  // reduces its inputs
  bool out_reduce; // reduces its results
  bool out_norm;   // ... and normalises their signs
};

// Do all values the policy works with fit?  b.d (or a.d) is 1 for whole
// operands and not used then.  Defined operands; zero divisors allowed.
inline bool working_fits(PolicyInfo const& p, RepInfo const& c, int op, int form,
                         Comp a, Comp b)
{
  Fit f = fit_of(c);
  f.in(a.n);
  f.in(a.d);
  f.in(b.n);
  f.in(b.d);
  if (p.in_reduce)
  {
    if (form != RF)
      a = lowest_ignore(a);
    if (form != FR)
      b = lowest_ignore(b);
  }
  if (form == FF)
  {
    switch (op)
    {
      case PLUS:
      case MINUS:
      case MOD:
      {
        i128 x, y;
        if (p.safe)
        {
          i128 const l = f.lcm(a.d, b.d);
          if (!f.ok)
            return false;
          x = f.mul(a.d ? l / a.d : 0, a.n);
          y = f.mul(b.d ? l / b.d : 0, b.n);
          f.in(a.d ? l / a.d : 0);
          f.in(b.d ? l / b.d : 0);
        }
        else
        {
          x = f.mul(a.n, b.d);
          y = f.mul(b.n, a.d);
          f.mul(a.d, b.d);
        }
        if (op == PLUS)
          f.add(x, y);
        else if (op == MINUS)
          f.sub(x, y);
        break;
      }
      case TIMES:
        f.mul(a.n, b.n);
        f.mul(a.d, b.d);
        break;
      case DIVIDES:
        f.mul(a.n, b.d);
        f.mul(a.d, b.n);
        break;
    }
  }
  else if (form == FR)
  {
    switch (op)
    {
      case PLUS:
        f.add(a.n, f.mul(b.n, a.d));
        break;
      case MINUS:
        f.sub(a.n, f.mul(b.n, a.d));
        break;
      case TIMES:
        f.mul(a.n, b.n);
        break;
      case DIVIDES:
        f.mul(a.d, b.n);
        break;
      case MOD:
        f.mul(a.d, b.n);
        break;
    }
  }
  else
  {
    switch (op)
    {
      case PLUS:
        f.add(b.n, f.mul(a.n, b.d));
        break;
      case MINUS:
        f.sub(f.mul(a.n, b.d), b.n);
        break;
      case TIMES:
        f.mul(a.n, b.n);
        break;
      case DIVIDES:
        f.mul(a.n, b.d);
        break;
      case MOD:
        f.mul(a.n, b.d);
        break;
    }
  }
  return f.ok;
}

// Do the values compared by the policy fit?
inline bool compare_fits(PolicyInfo const& p, RepInfo const& c, int form, Comp a,
                         Comp b)
{
  Fit f = fit_of(c);
  f.in(a.n);
  f.in(a.d);
  f.in(b.n);
  f.in(b.d);
  if (p.in_reduce)
  {
    if (form != RF)
      a = lowest_ignore(a);
    if (form != FR)
      b = lowest_ignore(b);
  }
  if (form == FR)
    f.mul(b.n, a.d);
  else if (form == RF)
    f.mul(a.n, b.d);
  else if (p.safe)
  {
    i128 const l = f.lcm(a.d, b.d);
    if (!f.ok)
      return false;
    f.mul(a.d ? l / a.d : 0, a.n);
    f.mul(b.d ? l / b.d : 0, b.n);
  }
  else
  {
    f.mul(a.n, b.d);
    f.mul(b.n, a.d);
  }
  return f.ok;
}

// The exact result; undefined as {0, 0}.  Valid (ok) whenever it fits 126 bits
// in the form used, in particular whenever working_fits.
inline Comp exact(int op, Comp a, Comp b, bool& ok)
{
  ok = true;
  if (a.d == 0 || b.d == 0)
    return {0, 0};
  if ((op == DIVIDES || op == MOD) && b.n == 0)
    return {0, 0};
  a = lowest(a);
  b = lowest(b);
  i128 const big = (i128(1) << 126);
  Fit f {-big, big, true};
  Comp r;
  switch (op)
  {
    case PLUS:
    case MINUS:
    case MOD:
    {
      i128 const l = f.lcm(a.d, b.d);
      i128 const x = f.mul(l / a.d, a.n), y = f.mul(l / b.d, b.n);
      if (!f.ok)
        break;
      r = {op == PLUS ? f.add(x, y) : op == MINUS ? f.sub(x, y) : x % y, l};
      break;
    }
    case TIMES:
    {
      Comp const p = lowest({a.n, b.d}), q = lowest({b.n, a.d});
      r = {f.mul(p.n, q.n), f.mul(p.d, q.d)};
      break;
    }
    case DIVIDES:
    {
      Comp const p = lowest({a.n, b.n}), q = lowest({b.d, a.d});
      r = {f.mul(p.n, q.n), f.mul(p.d, q.d)};
      break;
    }
  }
  ok = f.ok;
  return lowest(r);
}

inline i128 floor_div(i128 n, i128 d)
{
  if (d < 0)
  {
    n = -n;
    d = -d;
  }
  i128 q = n / d;
  if (n % d != 0 && n < 0)
    --q;
  return q;
}
inline i128 ceil_div(i128 n, i128 d) { return -floor_div(-n, d); }

// --- generators -----------------------------------------------------------------

extern std::vector<i128> const& constants_in_headers();
extern std::vector<std::string> const& texts_in_headers();

inline int bit_width(u128 v)
{
  int r = 0;
  for (; v; v >>= 1)
    ++r;
  return r;
}

inline u128 isqrt(u128 v)
{
  u128 r = 0;
  for (int b = 64; b-- > 0;)
  {
    u128 const t = r | (u128(1) << b);
    if (t * t <= v)
      r = t;
  }
  return r;
}

// A magnitude in [0, max]; shrinks to 0.
inline i128 gen_mag(Src& s, i128 max)
{
  if (max <= 0)
    return 0;
  u128 const m = u128(max);
  auto clamp = [&](i128 v) -> i128 {
    if (v < 0)
      v = -v;
    return v > max ? (max == 0 ? 0 : v % (max + 1)) : v;
  };
  int const bits = bit_width(m);
  switch (s.below(16))
  {
    default:
      return clamp(i128(s.below(13)));
    case 5:
    case 6:
    case 7:
    {
      int const b = 1 + int(s.below(u64(bits)));
      return clamp(i128(s.draw(b >= 64 ? ~0ULL : (1ULL << b) - 1)));
    }
    case 8:
      return clamp(max - i128(s.below(9)));
    case 9:
      return clamp((i128(1) << s.below(u64(bits))) + i128(s.below(3)) - 1);
    case 10:
      return clamp(max / i128(1 + s.below(16)) + i128(s.below(5)) - 2);
    case 11:
      return clamp(i128(isqrt(m)) + i128(s.below(7)) - 3);
    case 12:
    {
      static int const primes[] = {2, 3, 2, 5, 2, 3, 7, 11, 13};
      u128 const lim = u128(1) << (1 + s.below(u64(bits)));
      u128 v = 1;
      for (int k = 0; k < 24; ++k)
      {
        u128 const t = v * u128(primes[s.below(9)]);
        if (t > lim || t > m)
          break;
        v = t;
      }
      return i128(v);
    }
    case 13:
    {
      auto const& c = constants_in_headers();
      if (c.empty())
        return 0;
      return clamp(c[s.below(c.size())] + i128(s.below(3)) - 1);
    }
    case 14:
    {
      i128 v = 1;
      for (int k = int(s.below(20)); k-- > 0 && v <= max / 10;)
        v *= 10;
      return clamp(v + i128(s.below(3)) - 1);
    }
    case 15:
      return clamp(i128(s.draw(m >> 64 ? ~0ULL : u64(m))));
  }
}

inline i128 gen_int(Src& s, RepInfo const& r)
{
  i128 const m = gen_mag(s, r.max);
  return r.is_signed && s.coin() ? -m : m;
}

inline i128 gen_nonzero(Src& s, RepInfo const& r)
{
  i128 m = gen_mag(s, r.max);
  if (m == 0)
    m = 1;
  return r.is_signed && s.coin() ? -m : m;
}

// A defined fraction.
inline Comp gen_comp(Src& s, RepInfo const& r)
{
  Comp c;
  c.n = gen_int(s, r);
  i128 m = gen_mag(s, r.max);
  if (m == 0)
    m = 1;
  c.d = r.is_signed && s.below(3) == 2 ? -m : m;
  u64 const shape = s.below(7);
  if (shape == 6)
  { // small partial quotients: Euclid's algorithm takes many steps
    i128 a = 1, b = 1;
    i128 const limit = s.coin() ? r.max : gen_mag(s, r.max);
    while (true)
    {
      i128 const q = s.below(8) == 7 ? 2 : 1;
      if (b > (limit - a) / q)
        break;
      a = std::exchange(b, a + q * b);
    }
    c = {s.coin() ? a : b, 0};
    c.d = c.n == a ? b : a;
    if (r.is_signed && s.coin())
      c.n = -c.n;
    if (r.is_signed && s.coin())
      c.d = -c.d;
  }
  switch (shape)
  {
    case 4:
    case 5:
    case 6:
    { // a common factor
      i128 const larger = i128(mag(c.n)) > i128(mag(c.d)) ? i128(mag(c.n)) : i128(mag(c.d));
      i128 const room = r.max / larger;
      if (room >= 2)
      {
        i128 const k = 1 + gen_mag(s, room - 1);
        c.n *= k;
        c.d *= k;
      }
      break;
    }
    default:
      break;
  }
  return c;
}

inline Comp gen_whole(Src& s, RepInfo const& r) { return {gen_int(s, r), 1}; }

inline bool comp_fits(Comp const& c, RepInfo const& r)
{
  return r.fits(c.n) && r.fits(c.d) && c.d != 0;
}

// The components the form really uses, for uniform manipulation.
struct Cells {
  i128* p[4];
  bool den[4];
  int count = 0;
  RepInfo const* rep[4];
  Cells(Comp& a, Comp& b, int form, RepInfo const& l, RepInfo const& r)
  {
    add(&a.n, false, l);
    if (form != RF)
      add(&a.d, true, l);
    add(&b.n, false, r);
    if (form != FR)
      add(&b.d, true, r);
  }
  void add(i128* q, bool is_den, RepInfo const& r)
  {
    p[count] = q;
    den[count] = is_den;
    rep[count] = &r;
    ++count;
  }
  void halve(int i)
  {
    *p[i] /= 2;
    if (den[i] && *p[i] == 0)
      *p[i] = 1;
  }
};

// Makes the pair satisfy pred by halving components.
template <typename Pred>
bool repair(Src& s, Comp& a, Comp& b, int form, RepInfo const& l,
            RepInfo const& r, Pred pred)
{
  int const style = int(s.below(3));
  Cells c(a, b, form, l, r);
  for (int k = 0; k < 400; ++k)
  {
    if (pred(a, b))
      return true;
    if (style == 2)
    {
      for (int i = 0; i < c.count; ++i)
        c.halve(i);
    }
    else
    {
      int big = 0;
      for (int i = 1; i < c.count; ++i)
        if (mag(*c.p[i]) > mag(*c.p[big]))
          big = i;
      c.halve(big);
    }
  }
  return pred(a, b);
}

// Relates components to each other, and pushes components to the edge of the
// domain, staying inside it.
template <typename Pred>
void relate(Src& s, Comp& a, Comp& b, int form, RepInfo const& l,
            RepInfo const& r, Pred pred)
{
  Cells c(a, b, form, l, r);
  auto try_set = [&](int i, i128 v) {
    if (c.den[i] && v == 0)
      return false;
    if (!c.rep[i]->fits(v))
      return false;
    i128 const old = *c.p[i];
    *c.p[i] = v;
    if (pred(a, b))
      return true;
    *c.p[i] = old;
    return false;
  };
  int steps = int(s.below(4)) - 1;
  for (; steps > 0; --steps)
  {
    int const i = int(s.below(u64(c.count))), j = int(s.below(u64(c.count)));
    i128 const x = *c.p[j];
    switch (s.below(8))
    {
      case 0:
        try_set(i, x);
        break;
      case 1:
        try_set(i, -x);
        break;
      case 2:
        try_set(i, x + 1);
        break;
      case 3:
        try_set(i, x - 1);
        break;
      case 4:
      {
        i128 const k = i128(2 + s.below(9));
        if (mag(x) < (u128(1) << 90))
          try_set(i, x * k);
        break;
      }
      case 5:
        try_set(i, -*c.p[i]);
        break;
      case 6:
      { // as large as the domain allows
        int const sign = *c.p[i] < 0 ? -1 : 1;
        i128 lo = i128(mag(*c.p[i])), hi = c.rep[i]->max;
        if (try_set(i, sign * hi))
          break;
        while (hi - lo > 1)
        {
          i128 const mid = lo + (hi - lo) / 2;
          if (try_set(i, sign * mid))
            lo = mid;
          else
            hi = mid;
        }
        break;
      }
      case 7:
        try_set(i, i128(s.below(3)) * (s.coin() ? 1 : -1));
        break;
    }
  }
}

// Orders unsigned operands so that a - b is not negative.
inline void make_ge(Comp& a, Comp& b, int form, RepInfo const& l,
                    RepInfo const& r)
{
  if (cmp(a, b) >= 0)
    return;
  if (form == FF)
  {
    if (comp_fits(a, r) && comp_fits(b, l))
      std::swap(a, b);
  }
  else if (form == FR)
    b.n %= floor_div(a.n, a.d) + 1;
  else
  {
    i128 const c = ceil_div(b.n, b.d);
    a.n = c + a.n <= l.max ? c + a.n : c <= l.max ? c : l.max;
  }
}

// A pair of operands for the form, satisfying pred.
template <typename Pred>
bool gen_pair(Src& s, Comp& a, Comp& b, int form, RepInfo const& l,
              RepInfo const& r, bool want_ge, Pred pred)
{
  a = form == RF ? gen_whole(s, l) : gen_comp(s, l);
  switch (s.below(8))
  {
    default:
      b = form == FR ? gen_whole(s, r) : gen_comp(s, r);
      break;
    case 6:
      b = a; // equal, possibly in another form
      if (form == FR)
        b = {a.d ? a.n / a.d : 0, 1};
      else if (form == RF)
      {
        i128 const m = a.n ? r.max / i128(mag(a.n)) : r.max;
        b.d = 1 + gen_mag(s, m > 1 ? m - 1 : 0);
        b.n = a.n * b.d;
      }
      else
      {
        b = lowest(b);
        i128 const big = mag(b.n) > mag(b.d) ? i128(mag(b.n)) : i128(mag(b.d));
        i128 const m = r.max / (big ? big : 1);
        i128 k = 1 + gen_mag(s, m > 1 ? m - 1 : 0);
        if (r.is_signed && s.coin())
          k = -k;
        b.n *= k;
        b.d *= k;
      }
      if (!comp_fits(b, r))
        b = {1, 1};
      break;
    case 7:
      // adjacent: a little off the other operand
      b = a;
      if (form == FR)
        b = {a.d ? a.n / a.d : 0, 1};
      b.n += i128(s.below(3)) - 1;
      if (form != FR)
        b.d += i128(s.below(3)) - 1;
      if (!comp_fits(b, r))
        b = {1, 1};
      break;
  }
  if (want_ge)
    make_ge(a, b, form, l, r);
  if (!repair(s, a, b, form, l, r, pred))
    return false;
  relate(s, a, b, form, l, r, pred);
  return true;
}

} // namespace ref

#endif
