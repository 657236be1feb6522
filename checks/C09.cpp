// C09: redenomination gives the requested denominator and the right neighbour.
#include "policies.hpp"

#include <ieme/fraction_math.hpp>

using namespace ref;

namespace {

enum { TRUNC, FLOOR, CEIL, ROUND, KINDS };
char const* const names[] = {"trunc", "floor", "ceil", "round"};

struct Api {
  PolicyInfo p;
  RepInfo r;
  Comp (*call)(int kind, int how, Comp const& v, i128 d);
  Comp (*times)(Comp const& v, i128 w);
  Comp (*minus)(Comp const& v, i128 w);
};

template <typename T, typename Ops>
Comp call(int kind, int how, Comp const& v, i128 d)
{
  using ieme::round_mode;
  auto const f = pol::make<T, Ops>(v);
  if (how == 2)
    return pol::comp(redenominate(f, T(d)));
  if (how == 1)
  {
    static round_mode const modes[]
      = {round_mode::trunc, round_mode::floor, round_mode::ceil, round_mode::round};
    return pol::comp(redenominate(f, T(d), modes[kind]));
  }
  switch (kind)
  {
    case TRUNC:
      return pol::comp(trunc_redenominate(f, T(d)));
    case FLOOR:
      return pol::comp(floor_redenominate(f, T(d)));
    case CEIL:
      return pol::comp(ceil_redenominate(f, T(d)));
    default:
      return pol::comp(round_redenominate(f, T(d)));
  }
}

template <typename T, typename Ops>
Comp minus(Comp const& v, i128 w)
{
  return pol::comp(pol::make<T, Ops>(v) - T(w));
}

template <typename T, typename Ops>
Comp times(Comp const& v, i128 w)
{
  return pol::comp(pol::make<T, Ops>(v) * T(w));
}

// The product v*d as the library computes it, if all values involved fit.
bool domain(Api const& api, Comp const& v, i128 d)
{
  return v.d != 0 && d != 0 && working_fits(api.p, api.r, TIMES, FR, v, {d, 1})
         && (!api.r.is_signed || working_fits(api.p, api.r, TIMES, FR, v, {-d, 1}));
}

bool round_domain(Api const& api, Comp const& v)
{
  if (v.d == 0)
    return false;
  i128 const f = floor_div(v.n, v.d);
  if (!api.r.fits(f) || !api.r.fits(f + 1) || !api.r.fits(f - 1 + !api.r.is_signed))
    return false;
  if (!working_fits(api.p, api.r, MINUS, FR, v, {f, 1}))
    return false;
  Comp const rest = api.minus(v, f);
  if (!api.r.fits(rest.n) || !api.r.fits(rest.d))
    return false;
  return compare_fits(api.p, api.r, FF, rest, {1, 2});
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp v = gen_comp(s, api.r);
  i128 d = gen_nonzero(s, api.r);
  switch (s.below(6))
  {
    case 2: // already expressible
    {
      i128 const m = 1 + gen_mag(s, api.r.max / i128(mag(v.d)) - 1 > 0 ? api.r.max / i128(mag(v.d)) - 1 : 0);
      d = (s.coin() ? v.d : lowest(v).d) * (s.coin() ? m : 1);
      if (api.r.is_signed && s.coin())
        d = -d;
      break;
    }
    case 3: // ties: v = (2k+1)/(2d)
    {
      i128 const lim = i128(isqrt(u128(api.r.max)) / 4);
      d = 1 + gen_mag(s, lim);
      v = {2 * gen_mag(s, lim) + 1 + (s.below(4) == 3 ? i128(s.below(3)) - 1 : 0), 2 * d};
      if (api.r.is_signed)
      {
        if (s.coin())
          v.n = -v.n;
        if (s.coin())
          d = -d;
        if (s.coin())
          v.d = -v.d;
      }
      break;
    }
    case 4:
      d = i128(1 + s.below(12));
      if (api.r.is_signed && s.coin())
        d = -d;
      break;
    default:
      break;
  }
  if (!api.r.fits(d) || d == 0)
    d = 1;
  for (int k = 0; k < 300 && !domain(api, v, d); ++k)
  {
    int const which = int(s.below(3));
    i128& x = which == 0 ? v.n : which == 1 ? v.d : d;
    x /= 2;
    if (v.d == 0)
      v.d = 1;
    if (d == 0)
      d = 1;
  }
  if (!domain(api, v, d))
    c.discard();
  Comp const prod = api.times(v, d);
  bool const round_ok = api.r.fits(prod.n) && api.r.fits(prod.d) && round_domain(api, prod);
  c.note([&](auto& o) { o << str(v) << " over " << str(d) << (round_ok ? "" : " (not rounded)"); });
  // exact: t = v * d as a rational; multiples of 1/d are k/d with k integer
  bool ok;
  Comp const t = exact(TIMES, v, {d, 1}, ok);
  if (!ok)
    c.discard();
  i128 const lo = floor_div(t.n, t.d), hi = ceil_div(t.n, t.d);
  if (!api.r.fits(lo) || !api.r.fits(hi))
    c.discard();
  i128 const below = d > 0 ? lo : hi, above = d > 0 ? hi : lo;
  i128 const toward_zero = sgn(t.n) < 0 ? hi : lo;
  for (int kind = 0; kind < KINDS; ++kind)
  {
    if (kind == ROUND && !round_ok)
      continue;
    for (int how = 0; how < (kind == ROUND ? 3 : 2); ++how)
    {
      Comp const got = api.call(kind, how, v, d);
      auto message = [&](auto& o) {
        o << names[kind] << "_redenominate(" << str(v) << ", " << str(d) << ")"
          << (how == 1 ? " by mode" : how == 2 ? " by default" : "") << " gave " << str(got)
          << " (" << api.p.name << ")";
      };
      c.check(got.d == d, message);
      bool good;
      switch (kind)
      {
        case TRUNC:
          good = got.n == toward_zero;
          break;
        case FLOOR:
          good = got.n == below;
          break;
        case CEIL:
          good = got.n == above;
          break;
        default:
        {
          i128 const rest = t.n - lo * t.d; // 0 <= rest < t.d
          good = (got.n == lo && 2 * rest <= t.d) || (got.n == hi && 2 * rest >= t.d);
        }
      }
      c.check(good, message);
    }
  }
  c.nontrivial(lo != hi);
  c.label_if(!round_ok, "round out of domain");
  c.label_if(lo == hi, "expressible");
  c.label_if(lo != hi && 2 * (t.n - lo * t.d) == t.d, "tie");
  c.label_if(d < 0, "negative new denominator");
}

template <typename T, typename P>
void add(double w)
{
  using O = typename P::ops;
  auto* api = new Api {P::info(), rep_info<T>(), &call<T, O>, &times<T, O>, &minus<T, O>};
  pbt::add(api->p.name + " " + api->r.name, w, [api](Ctx& c) { body(c, *api); });
}

template <typename P>
void add_all()
{
  add<int, P>(3);
  add<long, P>(2);
  add<long long, P>(2);
  add<unsigned, P>(1);
  add<unsigned long, P>(1);
  add<unsigned long long, P>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "fractions and new denominators (related, expressible, ties, small, large), "
      "halved until the products fit; all four modes by function and by mode argument; "
      "non-trivial: the value is not a multiple of 1/d";
  add_all<pol::at<PART>>();
#if PART < 5
  add_all<pol::at<PART + 8>>();
#endif
});

} // namespace
