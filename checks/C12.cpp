// C12: floating-point values convert to exactly equal fractions.
#include "policies.hpp"

#include <ieme/floating_point.hpp>

#include <bit>
#include <cmath>
#include <cstring>

using namespace ref;

namespace {

struct Api {
  std::string name;
  RepInfo r;
  Comp (*from_double)(double v);
  Comp (*from_float)(float v);
};

template <typename T, typename Ops>
Comp from_double(double v)
{
  return pol::comp(ieme::to_fraction<T, Ops>(v));
}
template <typename T, typename Ops>
Comp from_float(float v)
{
  return pol::comp(ieme::to_fraction<T, Ops>(v));
}
template <typename T>
Comp from_double_default(double v)
{
  ieme::fraction<T> const f = ieme::to_fraction<T>(v);
  return pol::comp(f);
}
template <typename T>
Comp from_float_default(float v)
{
  ieme::fraction<T> const f = ieme::to_fraction<T>(v);
  return pol::comp(f);
}

// Exact value of sign * m * 2^e in lowest terms, if it fits r.
bool exact_value(bool negative, u64 m, int e, RepInfo const& r, Comp& out)
{
  if (m == 0)
  {
    out = {0, 1};
    return true;
  }
  while (m % 2 == 0)
  {
    m /= 2;
    ++e;
  }
  Comp v;
  if (e >= 0)
  {
    if (e >= 64)
      return false;
    u128 const x = u128(m) << e;
    if (e + bit_width(m) > 64)
      return false;
    v = {i128(x), 1};
  }
  else
  {
    if (-e >= 64)
      return false;
    v = {i128(m), i128(1) << -e};
  }
  if (negative)
    v.n = -v.n;
  out = v;
  return r.fits(v.n) && r.fits(v.d);
}

template <int MantissaBits, int ExponentBits>
u64 gen_bits(Src& s, RepInfo const& r, int& kind)
{
  int const bias = (1 << (ExponentBits - 1)) - 1;
  u64 const mant_mask = (u64(1) << MantissaBits) - 1;
  bool const neg = r.is_signed ? s.coin() : s.one_in(16);
  kind = int(s.below(12));
  u64 const sign = u64(neg) << (MantissaBits + ExponentBits);
  switch (kind)
  {
    case 0:
      return sign; // zeros
    case 1: // NaN and infinities
    {
      u64 const payload = s.coin() ? s.draw(mant_mask) : s.coin() ? 0 : u64(1) << (MantissaBits - 1);
      return sign | ((u64(1) << ExponentBits) - 1) << MantissaBits | payload;
    }
    case 2: // any bits (mostly out of range)
      return sign | s.below((u64(1) << ExponentBits) - 1) << MantissaBits | s.draw(mant_mask);
    default:
      break;
  }
  // odd significand of w bits times 2^e, representable
  int const wmax = MantissaBits + 1 < r.digits ? MantissaBits + 1 : r.digits;
  int const w = 1 + int(s.below(u64(wmax)));
  u64 m = (u64(1) << (w - 1)) | (w > 1 ? s.draw((u64(1) << (w - 1)) - 1) : 0) | 1;
  if (s.below(4) == 3)
    m = w >= 2 ? (u64(1) << (w - 1)) + 1 : 1;
  else if (s.below(4) == 3)
    m = (u64(1) << w) - 1;
  int e;
  if (s.coin())
    e = int(s.below(u64(r.digits - w + 1)));
  else
    e = -int(s.below(u64(r.digits)));
  if (s.below(8) == 7)
    e = s.coin() ? r.digits - w : -(r.digits - 1);
  // to bits: m * 2^e normalised
  int const top = bit_width(m) - 1;
  int const exp = top + e + bias;
  u64 const frac = (m << (MantissaBits - top)) & mant_mask;
  return sign | u64(exp) << MantissaBits | frac;
}

template <int MantissaBits, int ExponentBits>
void run(Ctx& c, Api const& api, bool is_float)
{
  Src& s = c.src;
  int kind;
  u64 const bits = gen_bits<MantissaBits, ExponentBits>(s, api.r, kind);
  int const bias = (1 << (ExponentBits - 1)) - 1;
  bool const neg = bits >> (MantissaBits + ExponentBits) & 1;
  int const ef = int(bits >> MantissaBits & ((1 << ExponentBits) - 1));
  u64 const frac = bits & ((u64(1) << MantissaBits) - 1);
  Comp got, want;
  bool const special = ef == (1 << ExponentBits) - 1;
  bool const fits
    = !special
      && exact_value(neg, ef ? frac | u64(1) << MantissaBits : frac,
                     (ef ? ef : 1) - bias - MantissaBits, api.r, want);
  if (!special && !fits)
  {
    c.label("not representable");
    return;
  }
  auto show = [&](auto& o) {
    char buf[64];
    if (is_float)
    {
      float const f = std::bit_cast<float>(std::uint32_t(bits));
      std::snprintf(buf, sizeof buf, "%a (float, %.9g)", double(f), double(f));
    }
    else
    {
      double const d = std::bit_cast<double>(bits);
      std::snprintf(buf, sizeof buf, "%a (double, %.17g)", d, d);
    }
    o << buf;
  };
  c.note(show);
  if (is_float)
    got = api.from_float(std::bit_cast<float>(std::uint32_t(bits)));
  else
    got = api.from_double(std::bit_cast<double>(bits));
  auto message = [&](auto& o) {
    o << "to_fraction of ";
    show(o);
    o << " gave " << str(got) << ", expected " << (special ? "undefined" : str(want)) << " ("
      << api.name << ")";
  };
  if (special)
    c.check(got.d == 0, message);
  else
    c.check(got.d != 0 && cmp(got, want) == 0, message);
  c.nontrivial(!special && mag(want.n) > 1);
  c.label(is_float ? "float" : "double");
  c.label_if(special, frac ? "NaN" : "infinity");
  c.label_if(!special && want.d > 1, "not an integer");
  c.label_if(!special && want.n == 0, "zero");
  c.label_if(neg, "negative");
}

void body(Ctx& c, Api const& api)
{
  if (c.src.coin())
    run<52, 11>(c, api, false);
  else
    run<23, 8>(c, api, true);
}

template <typename T, typename P>
void add(double w)
{
  using O = typename P::ops;
  auto* api = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), &from_double<T, O>,
                       &from_float<T, O>};
  pbt::add(api->name, w, [api](Ctx& c) { body(c, *api); });
}

template <typename T>
void add_rep()
{
  auto* api = new Api {std::string("default ") + rep_name<T>(), rep_info<T>(),
                       &from_double_default<T>, &from_float_default<T>};
  pbt::add(api->name, 2, [api](Ctx& c) { body(c, *api); });
  add<T, pol::at<2>>(1);
  add<T, pol::at<1>>(1);
  add<T, pol::at<9>>(1);
  add<T, pol::at<7>>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "bit patterns of floats and doubles: odd significands of every width scaled by "
      "every power of two that is representable, zeros, NaN, infinities, random "
      "patterns (skipped when not representable); non-trivial: representable and the "
      "numerator is neither 0 nor 1";
#if PART == 0
  add_rep<int>();
  add_rep<unsigned>();
#elif PART == 1
  add_rep<long>();
  add_rep<unsigned long>();
#else
  add_rep<long long>();
  add_rep<unsigned long long>();
#endif
});

} // namespace
