// C13: fractions convert to the closest floating-point values and back.
#include "policies.hpp"

#include <ieme/floating_point.hpp>

#include <cfloat>
#include <cmath>

using namespace ref;

namespace {

enum Target { FLOAT, DOUBLE, LONG_DOUBLE };
int const precision[] = {FLT_MANT_DIG, DBL_MANT_DIG, LDBL_MANT_DIG};
char const* const names[] = {"to_float", "to_double", "to_long_double"};

struct Api {
  std::string name;
  RepInfo r;
  long double (*convert)(Target t, Comp const& v);
  Comp (*back)(Comp const& v); // to_fraction(to_double(v))
  Comp (*back_float)(Comp const& v);
};

template <typename T, typename Ops>
long double convert(Target t, Comp const& v)
{
  auto const f = pol::make<T, Ops>(v);
  static_assert(std::is_same_v<decltype(to_float(f)), float>);
  static_assert(std::is_same_v<decltype(to_double(f)), double>);
  static_assert(std::is_same_v<decltype(to_long_double(f)), long double>);
  return t == FLOAT ? to_float(f) : t == DOUBLE ? to_double(f) : to_long_double(f);
}
template <typename T, typename Ops>
Comp back(Comp const& v)
{
  return pol::comp(ieme::to_fraction<T, Ops>(to_double(pol::make<T, Ops>(v))));
}
template <typename T, typename Ops>
Comp back_float(Comp const& v)
{
  return pol::comp(ieme::to_fraction<T, Ops>(to_float(pol::make<T, Ops>(v))));
}

bool exactly_representable(i128 v, int p)
{
  u128 m = mag(v);
  if (m == 0)
    return true;
  while (!(m & 1))
    m >>= 1;
  return bit_width(m) <= p;
}

// n/d rounded to nearest even with p bits of precision; n, d > 0.
// Also the unit in the last place of the result's binade.
long double nearest(u64 n, u64 d, int p, long double& ulp)
{
  int e = bit_width(n) - bit_width(d); // 2^(e-1) < n/d < 2^(e+1)
  // scale so that 2^(p-1) <= q < 2^p: n * 2^k / d
  auto at_least = [&](int k) { // n/d >= 2^k
    return k >= 0 ? u128(n) >= u128(d) << k : u128(n) << -k >= u128(d);
  };
  while (!at_least(e))
    --e;
  while (at_least(e + 1))
    ++e;
  // result bits: q = floor(n/d * 2^(p-1-e)), by long division
  u128 q = 0, rest;
  int const shift = p - 1 - e;
  if (shift >= 0)
  {
    q = n / d;
    rest = n % d;
    for (int i = 0; i < shift; ++i)
    {
      rest <<= 1;
      q <<= 1;
      if (rest >= d)
      {
        rest -= d;
        ++q;
      }
    }
    int const c = rest * 2 < d ? -1 : rest * 2 > d ? 1 : 0;
    if (c > 0 || (c == 0 && (q & 1)))
      ++q;
  }
  else
  {
    u128 const dd = u128(d) << -shift;
    q = n / dd;
    rest = n % dd;
    u128 const other = dd - rest;
    if (rest > other || (rest == other && (q & 1)))
      ++q;
  }
  ulp = std::ldexp(1.0L, -shift);
  return std::ldexp((long double)(u64(q >> 1)) * 2 + (long double)(u64(q & 1)), -shift);
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp v = gen_comp(s, api.r);
  int const kind = int(s.below(6));
  auto sign = [&](i128 x) { return api.r.is_signed && s.coin() ? -x : x; };
  if (kind == 2 || kind == 3)
  { // dyadic
    int const w = 1 + int(s.below(u64(api.r.digits)));
    i128 m = (i128(1) << (w - 1)) | (w > 1 ? i128(s.draw((u64(1) << (w - 1)) - 1)) : 0);
    if (m > api.r.max)
      m = api.r.max;
    i128 d = i128(1) << s.below(u64(api.r.digits));
    i128 const room = api.r.max / (m > d ? m : d);
    i128 const k = 1 + gen_mag(s, room - 1);
    v = {sign(m * k), sign(d * k)};
  }
  else if (kind == 4)
  { // components a few bits wider than the significands, near halfway
    static int const ps[] = {24, 53, 64};
    int const p = ps[s.below(3)];
    auto wide = [&]() -> i128 {
      int const w = p - 1 + int(s.below(4));
      if (w >= api.r.digits)
        return 1 + gen_mag(s, api.r.max - 1);
      return (i128(1) << w) + i128(s.below(16)) * (s.coin() ? 1 : i128(1) << s.below(u64(w)));
    };
    i128 n = wide(), d = s.coin() ? wide() : i128(1) + i128(s.below(20));
    if (api.r.fits(n) && api.r.fits(d))
      v = {sign(n), sign(d)};
  }
  Comp const low = lowest(v);
  c.note([&](auto& o) { o << str(v); });
  // another form of the same value
  Comp w = low;
  {
    i128 const big = mag(w.n) > mag(w.d) ? i128(mag(w.n)) : i128(mag(w.d));
    i128 const k = sign(1 + gen_mag(s, api.r.max / big - 1));
    w = {w.n * k, w.d * k};
  }
  bool some_exact = false;
  for (int t = 0; t < 3; ++t)
  {
    int const p = precision[t];
    long double const got = api.convert(Target(t), v);
    long double want = 0, ulp = 0;
    if (low.n != 0)
      want = nearest(u64(mag(low.n)), u64(low.d), p, ulp);
    if (low.n < 0)
      want = -want;
    bool const exact = exactly_representable(low.n, p) && exactly_representable(low.d, p);
    some_exact = some_exact || (exact && low.n != 0);
    auto message = [&](auto& o) {
      char buf[128];
      std::snprintf(buf, sizeof buf, "gave %La, nearest is %La", got, want);
      o << names[t] << " of " << str(v) << " " << buf << (exact ? "" : " (3 ulp allowed)") << " ("
        << api.name << ")";
    };
    if (exact)
      c.check(got == want, message);
    else
      c.check(std::fabs(got - want) <= 3 * ulp, message);
    long double const other = api.convert(Target(t), w);
    c.check(other == got, [&](auto& o) {
      char buf[128];
      std::snprintf(buf, sizeof buf, "%La and %La", got, other);
      o << names[t] << " of the equal fractions " << str(v) << " and " << str(w) << " gave " << buf;
    });
    if (api.r.is_signed)
    {
      long double const neg = api.convert(Target(t), {-v.n, v.d});
      c.check(neg == -got, [&](auto& o) {
        char buf[128];
        std::snprintf(buf, sizeof buf, "%La and %La", got, neg);
        o << names[t] << " of " << str(v) << " and of its negation gave " << buf;
      });
    }
    c.label_if(exact && low.d > 1, t == 0 ? "exact float operands" : t == 1 ? "exact double operands" : "exact long double operands");
  }
  // round trips
  for (int t = 0; t < 2; ++t)
    if ((low.d & (low.d - 1)) == 0 && exactly_representable(low.n, precision[t]))
    {
      Comp const back = t ? api.back(v) : api.back_float(v);
      c.check(back.d != 0 && cmp(back, v) == 0, [&](auto& o) {
        o << "to_fraction(" << names[t] << "(" << str(v) << ")) gave " << str(back) << " ("
          << api.name << ")";
      });
      c.label(t ? "round trip double" : "round trip float");
    }
  c.nontrivial(some_exact && low.d > 1);
}

template <typename T, typename P>
void add(double w)
{
  using O = typename P::ops;
  auto* a = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), &convert<T, O>, &back<T, O>, &back_float<T, O>};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

template <typename T>
void add_rep(double w)
{
  add<T, pol::at<0>>(2 * w);
  add<T, pol::at<2>>(w);
  add<T, pol::at<1>>(w);
  add<T, pol::at<10>>(w);
}

PBT_REGISTER([] {
  pbt::rule()
    = "any fractions, dyadic ones, components a few bits wider than the significands; "
      "the correctly rounded quotient from long division is the oracle; a second form, "
      "the negation, and the round trip where exact; non-trivial: not an integer, and both "
      "reduced components exactly representable in a target";
#if PART == 0
  add_rep<int>(2);
  add_rep<unsigned>(1);
#elif PART == 1
  add_rep<long>(2);
  add_rep<unsigned long>(1);
#else
  add_rep<long long>(2);
  add_rep<unsigned long long>(1);
#endif
});

} // namespace
