// C08: trunc, floor, ceil, round and to_whole give the mathematical integers.
#include "policies.hpp"

#include <ieme/fraction_math.hpp>

using namespace ref;

namespace {

enum { TRUNC, FLOOR, CEIL, ROUND, KINDS };
char const* const names[] = {"trunc", "floor", "ceil", "round"};

struct Api {
  PolicyInfo p;
  RepInfo r;
  // direct: the function; otherwise to_whole with the mode; 2: default mode
  i128 (*call)(int kind, int how, Comp const& v);
  Comp (*minus)(Comp const& v, i128 w);
};

template <typename T, typename Ops>
i128 call(int kind, int how, Comp const& v)
{
  using ieme::round_mode;
  auto const f = pol::make<T, Ops>(v);
  if (how == 2)
    return i128(to_whole(f));
  if (how == 1)
  {
    static round_mode const modes[]
      = {round_mode::trunc, round_mode::floor, round_mode::ceil, round_mode::round};
    return i128(to_whole(f, modes[kind]));
  }
  switch (kind)
  {
    case TRUNC:
      return i128(trunc(f));
    case FLOOR:
      return i128(floor(f));
    case CEIL:
      return i128(ceil(f));
    default:
      return i128(round(f));
  }
}

template <typename T, typename Ops>
Comp minus(Comp const& v, i128 w)
{
  return pol::comp(pol::make<T, Ops>(v) - T(w));
}

i128 round_half_up(Comp const& v)
{ // floor(v + 1/2) without overflow
  Comp const l = lowest(v);
  i128 const f = floor_div(l.n, l.d);
  i128 const rest = l.n - f * l.d; // 0 <= rest < d
  return 2 * rest >= l.d ? f + 1 : f;
}

bool round_domain(Api const& api, Comp const& v)
{
  i128 const f = floor_div(v.n, v.d);
  if (!api.r.fits(f) || !api.r.fits(f + 1))
    return false;
  if (!working_fits(api.p, api.r, MINUS, FR, v, {f, 1}))
    return false;
  Comp const rest = api.minus(v, f);
  if (!api.r.fits(rest.n) || !api.r.fits(rest.d))
    return false;
  return compare_fits(api.p, api.r, FF, rest, {1, 2});
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp v = gen_comp(s, api.r);
  switch (s.below(4))
  {
    case 1:
    { // near a multiple of half the denominator
      i128 d = 1 + gen_mag(s, api.r.max / 2 - 1);
      i128 const q = gen_mag(s, (api.r.max - d) / d);
      i128 n = q * d + (s.coin() ? d / 2 : 0) + i128(s.below(3)) - 1;
      if (api.r.is_signed && s.coin())
        n = -n;
      if (api.r.is_signed && s.coin())
      {
        n = -n;
        d = -d;
      }
      if (api.r.fits(n))
        v = {n, d};
      break;
    }
    case 2:
    { // exact ties and their neighbours, in several forms
      i128 const k = 1 + gen_mag(s, 1 << (2 + s.below(14)));
      i128 const m = gen_mag(s, api.r.max / (2 * k) - 1);
      i128 n = (2 * m + 1) * k + i128(s.below(3)) - 1, d = 2 * k;
      if (api.r.is_signed && s.coin())
        n = -n;
      if (api.r.is_signed && s.coin())
      {
        n = -n;
        d = -d;
      }
      if (api.r.fits(n) && api.r.fits(d))
        v = {n, d};
      break;
    }
    default:
      break;
  }
  bool round_ok = round_domain(api, v);
  if (!round_ok && s.coin())
  {
    for (int k = 0; k < 130 && !round_ok; ++k)
    {
      (mag(v.d) > mag(v.n) || s.coin() ? v.d : v.n) /= 2;
      if (v.d == 0)
        v.d = 1;
      round_ok = round_domain(api, v);
    }
  }
  c.note([&](auto& o) { o << str(v) << (round_ok ? "" : " (not rounded)"); });
  i128 const fl = floor_div(v.n, v.d), ce = ceil_div(v.n, v.d);
  i128 const want[] = {sgn(v.n) * sgn(v.d) < 0 ? ce : fl, fl, ce, round_half_up(v)};
  for (int kind = 0; kind < KINDS; ++kind)
  {
    if (kind == ROUND && !round_ok)
      continue;
    if (!api.r.fits(want[kind]))
      continue;
    for (int how = 0; how < (kind == ROUND ? 3 : 2); ++how)
    {
      i128 const got = api.call(kind, how, v);
      c.check(got == want[kind], [&](auto& o) {
        if (how)
          o << "to_whole(" << (how == 2 ? "default" : names[kind]) << ")";
        else
          o << names[kind];
        o << " of " << str(v) << " gave " << str(got) << ", expected " << str(want[kind])
          << " (" << api.p.name << ")";
      });
    }
  }
  c.nontrivial(fl != ce);
  c.label_if(!round_ok, "round out of domain");
  c.label_if(round_ok, "round checked");
  c.label_if(fl != ce && 2 * (lowest(v).n - fl * lowest(v).d) == lowest(v).d, "tie");
  c.label_if(v.d < 0, "negative denominator");
  c.label_if(sgn(v.n) * sgn(v.d) < 0, "negative value");
  c.label_if(fl == -1 && ce == 0, "between -1 and 0");
}

template <typename T, typename P>
void add(double w)
{
  auto* api = new Api {P::info(), rep_info<T>(), &call<T, typename P::ops>, &minus<T, typename P::ops>};
  pbt::add(api->p.name + " " + api->r.name, w, [api](Ctx& c) { body(c, *api); });
}

template <typename P>
void add_all()
{
  add<int, P>(3);
  add<long, P>(2);
  add<long long, P>(2);
  add<unsigned, P>(1);
  add<unsigned long, P>(1);
  add<unsigned long long, P>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "any fraction, fractions next to integers and to ties in several forms; trunc, "
      "floor, ceil always, round when the values it works with fit; non-trivial: not an "
      "integer";
  add_all<pol::at<PART>>();
#if PART < 5
  add_all<pol::at<PART + 8>>();
#endif
});

} // namespace
