// C11: powers are exact for positive, zero and negative exponents.
#include "policies.hpp"

#include <ieme/fraction_math.hpp>
#include <ieme/math_utilities.hpp>

using namespace ref;

namespace {

struct Api {
  std::string name;
  RepInfo r;
  Comp (*pow)(i128 b, int e);
  Comp (*pow2)(int e);
  i128 (*ipow)(i128 b, i128 e);
  i128 (*ipow2)(i128 e);
  i128 (*iabs)(i128 v);
};

template <typename T, typename Ops>
Comp power(i128 b, int e)
{
  return pol::comp(ieme::pow<T, Ops>(T(b), e));
}
template <typename T, typename Ops>
Comp power2(int e)
{
  return pol::comp(ieme::pow2<T, Ops>(e));
}
template <typename T>
i128 ipow(i128 b, i128 e)
{
  return i128(ieme::math_utilities::pow<T>(T(b), T(e)));
}
template <typename T>
i128 ipow2(i128 e)
{
  return i128(ieme::math_utilities::pow2<T>(T(e)));
}
template <typename T>
i128 iabs(i128 v)
{
  return i128(ieme::math_utilities::abs<T>(T(v)));
}

bool power_fits(RepInfo const& r, i128 b, int e, i128& out)
{
  i128 v = 1;
  if (b == 0 || b == 1)
    v = e ? b : 1;
  else if (b == -1)
    v = e % 2 ? -1 : 1;
  else
    for (int k = 0; k < e; ++k)
    {
      // (the most negative number can be a power, of minus two for instance)
      if (__builtin_mul_overflow(v, b, &v) || (v != r.true_min && !r.fits(v)))
        return false;
    }
  out = v;
  return v == r.true_min || r.fits(v);
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  i128 b;
  int e;
  switch (s.below(8))
  {
    case 0:
    { // powers of two
      e = int(s.below(u64(api.r.digits)));
      bool const neg = s.coin();
      c.note([&](auto& o) { o << "pow2(" << (neg ? -e : e) << ")"; });
      i128 const want = i128(1) << e;
      Comp const got = api.pow2(neg ? -e : e);
      Comp const w = neg ? Comp {1, want} : Comp {want, 1};
      c.check(got.d != 0 && cmp(got, w) == 0, [&](auto& o) {
        o << "pow2(" << (neg ? -e : e) << ") gave " << str(got) << " (" << api.name << ")";
      });
      i128 const i = api.ipow2(e);
      c.check(i == want, [&](auto& o) {
        o << "math_utilities::pow2(" << e << ") gave " << str(i) << " (" << api.name << ")";
      });
      c.nontrivial(e > 0);
      c.label("pow2");
      return;
    }
    case 1:
    { // abs
      i128 const v = gen_int(s, api.r);
      c.note([&](auto& o) { o << "abs(" << str(v) << ")"; });
      i128 const got = api.iabs(v);
      c.check(got == i128(mag(v)), [&](auto& o) {
        o << "math_utilities::abs(" << str(v) << ") gave " << str(got);
      });
      c.nontrivial(v < 0);
      c.label("abs");
      return;
    }
    case 2:
      b = i128(s.below(3)) - (api.r.is_signed ? 1 : 0);
      e = int(s.below(s.coin() ? 40 : s.below(1024) == 1 ? 3000000 : 4096));
      if (s.one_in(1 << 16))
      { // (a plain loop takes its time)
        e = std::numeric_limits<int>::max() - int(s.below(4));
        c.may_be_slow = true;
      }
      break;
    case 3:
    case 4:
    { // the largest base for an exponent, or just below
      e = 1 + int(s.below(s.coin() ? 6 : 40));
      i128 lo = 1, hi = api.r.max, t;
      while (hi - lo > 0)
      {
        i128 const mid = lo + (hi - lo + 1) / 2;
        if (power_fits(api.r, mid, e, t))
          lo = mid;
        else
          hi = mid - 1;
      }
      b = lo - i128(s.below(3));
      if (b < 0)
        b = 0;
      if (api.r.is_signed && s.coin())
        b = -b;
      break;
    }
    case 5:
    { // the largest exponent for a base, or just below
      b = 2 + gen_mag(s, s.coin() ? 40 : 70000);
      if (api.r.is_signed && s.coin())
        b = -b;
      e = 0;
      i128 t;
      while (power_fits(api.r, b, e + 1, t))
        ++e;
      e -= int(s.below(3));
      if (e < 0)
        e = 0;
      break;
    }
    default:
      b = s.coin() ? i128(s.below(24)) : gen_mag(s, api.r.max);
      if (api.r.is_signed && s.coin())
        b = -b;
      e = int(s.below(20));
      break;
  }
  i128 want;
  while (!power_fits(api.r, b, e, want))
  {
    if (s.coin())
      b /= 2;
    else
      e /= 2;
  }
  bool const neg = s.coin();
  c.note([&](auto& o) { o << "pow(" << str(b) << ", " << (neg ? -e : e) << ")"; });
  Comp const got = api.pow(b, neg ? -e : e);
  Comp const w = neg && e ? Comp {1, want} : Comp {want, 1};
  c.check(w.d == 0 ? got.d == 0 : got.d != 0 && cmp(got, w) == 0, [&](auto& o) {
    o << "pow(" << str(b) << ", " << (neg ? -e : e) << ") gave " << str(got) << ", expected "
      << (w.d ? str(w) : "undefined") << " (" << api.name << ")";
  });
  i128 const i = api.ipow(b, e);
  c.check(i == want, [&](auto& o) {
    o << "math_utilities::pow(" << str(b) << ", " << e << ") gave " << str(i) << " ("
      << api.name << ")";
  });
  c.nontrivial(e > 1 && mag(b) > 1);
  c.label_if(neg && e, "negative exponent");
  c.label_if(e == 0, "zero exponent");
  c.label_if(b == 0, "zero base");
  c.label_if(b < 0, "negative base");
}

template <typename T, typename P>
void add(double w)
{
  using O = typename P::ops;
  auto* api = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), &power<T, O>,
                       &power2<T, O>, &ipow<T>, &ipow2<T>, &iabs<T>};
  pbt::add(api->name, w, [api](Ctx& c) { body(c, *api); });
}

template <typename P>
void add_all()
{
  add<int, P>(3);
  add<long, P>(2);
  add<long long, P>(2);
  add<unsigned, P>(1);
  add<unsigned long, P>(1);
  add<unsigned long long, P>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "bases and exponents whose power fits: the largest base for an exponent and the "
      "largest exponent for a base (or just below), -1, 0, 1 with long exponents, small "
      "ones; negative exponents; non-trivial: exponent and base magnitude above one";
  add_all<pol::at<0>>();
  add_all<pol::at<2>>();
  add_all<pol::at<9>>();
});

} // namespace
