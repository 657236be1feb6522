// C07: reduction and sign normalisation are canonical and value-preserving.
#include "policies.hpp"

#include <ieme/fraction_math.hpp>
#include <ieme/fraction_queries.hpp>

using namespace ref;

namespace {

constexpr int n_red = 6, n_ign = 3, n_norm = 2;

// Everything the interface offers, for one pair of components.
struct Got {
  Comp normal[n_red]; // reduce, normalising signs
  Comp ignore[n_ign]; // reduce, ignoring signs
  Comp signs[n_norm];
  bool reduced, reduced_ignore;
  Comp self; // the argument after all calls
};

struct Api {
  std::string name;
  RepInfo r;
  Got (*all)(Comp const& v);
};

template <typename F>
Comp comp_of(F const& f)
{
  if constexpr (requires { f.raw(); })
    return {i128(f.numerator()), i128(f.denominator())};
  else
    return {i128(f.numerator), i128(f.denominator)};
}

template <typename F, typename T>
Got all(Comp const& v)
{
  F const f = [&] {
    if constexpr (requires(F x) { x.raw(); })
      return F(T(v.n), T(v.d));
    else
      return F {T(v.n), T(v.d)};
  }();
  using ieme::reduce_mode;
  Got g;
  g.normal[0] = comp_of(reduce(f));
  g.normal[1] = comp_of(reduce(f, reduce_mode::normalize_signs));
  g.normal[2] = comp_of(reduce_normalize_signs(f));
  g.normal[3] = comp_of(reduce(reduce(f)));
  g.normal[4] = comp_of(normalize_signs(reduce_ignore_signs(f)));
  g.normal[5] = comp_of(reduce_normalize_signs(normalize_signs(f)));
  g.ignore[0] = comp_of(reduce(f, reduce_mode::ignore_signs));
  g.ignore[1] = comp_of(reduce_ignore_signs(f));
  g.ignore[2] = comp_of(reduce_ignore_signs(reduce_ignore_signs(f)));
  g.signs[0] = comp_of(normalize_signs(f));
  g.signs[1] = comp_of(normalize_signs(normalize_signs(f)));
  g.reduced = is_reduced(f);
  g.reduced_ignore = is_reduced_ignore_signs(f);
  g.self = comp_of(f);
  return g;
}

void check_one(Ctx& c, Api const& api, Comp const& v)
{
  Got const g = api.all(v);
  auto say = [&](char const* what, Comp const& got, Comp const& want) {
    c.fail(api.name + ": " + what + " of " + str(v) + " gave " + str(got) + ", expected "
           + str(want));
  };
  if (!same(g.self, v))
    say("operand after calls", g.self, v);
  if (v.d == 0)
  {
    for (auto const& x : g.normal)
      if (x.d != 0)
        say("reduction", x, {0, 0});
    for (auto const& x : g.ignore)
      if (x.d != 0)
        say("reduction ignoring signs", x, {0, 0});
    for (auto const& x : g.signs)
      if (x.d != 0)
        say("normalisation", x, {0, 0});
    return;
  }
  Comp const low = lowest(v), ign = lowest_ignore(v);
  Comp const norm = v.d < 0 ? Comp {-v.n, -v.d} : v;
  for (int i = 0; i < n_red; ++i)
    if (!same(g.normal[i], low))
    {
      static char const* const n[] = {"reduce", "reduce(normalize_signs)", "reduce_normalize_signs", "reduce twice", "normalize_signs of reduce_ignore_signs", "reduce of normalize_signs"};
      say(n[i], g.normal[i], low);
    }
  for (int i = 0; i < n_ign; ++i)
    if (!same(g.ignore[i], ign))
    {
      static char const* const n[] = {"reduce(ignore_signs)", "reduce_ignore_signs", "reduce_ignore_signs twice"};
      say(n[i], g.ignore[i], ign);
    }
  for (int i = 0; i < n_norm; ++i)
    if (!same(g.signs[i], norm))
      say(i ? "normalize_signs twice" : "normalize_signs", g.signs[i], norm);
  c.check(g.reduced == same(v, low), [&](auto& o) {
    o << api.name << ": is_reduced(" << str(v) << ") is " << g.reduced;
  });
  c.check(g.reduced_ignore == same(v, ign), [&](auto& o) {
    o << api.name << ": is_reduced_ignore_signs(" << str(v) << ") is " << g.reduced_ignore;
  });
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp v = gen_comp(s, api.r);
  bool undefined = false;
  switch (s.below(8))
  {
    case 5: // already reduced
      v = lowest(v);
      break;
    case 6: // reduced up to signs
      v = lowest(v);
      if (api.r.is_signed)
        v = {-v.n, -v.d};
      break;
    case 7:
      if (s.coin())
      {
        v.d = 0;
        undefined = true;
      }
      else
        v.n = 0;
      break;
    default:
      break;
  }
  c.note([&](auto& o) { o << "components " << str(v); });
  check_one(c, api, v);
  if (!undefined)
  { // an equal value in another form
    Comp w = lowest(v);
    i128 const big = mag(w.n) > mag(w.d) ? i128(mag(w.n)) : i128(mag(w.d));
    i128 const room = api.r.max / big;
    i128 k = 1 + gen_mag(s, room - 1);
    if (api.r.is_signed && s.coin())
      k = -k;
    w.n *= k;
    w.d *= k;
    c.note([&](auto& o) { o << "equal form " << str(w); });
    check_one(c, api, w);
  }
  c.nontrivial(!undefined && (!same(v, lowest(v)) || v.n < 0));
  c.label_if(undefined, "undefined");
  c.label_if(v.d < 0, "negative denominator");
  c.label_if(!undefined && same(v, lowest(v)), "already reduced");
}

template <typename F, typename T>
void add(std::string name, double w)
{
  auto* api = new Api {name, rep_info<T>(), &all<F, T>};
  pbt::add(name, w, [api](Ctx& c) { body(c, *api); });
}

template <typename T>
void add_rep(double w)
{
  std::string const n = rep_name<T>();
  add<ieme::raw_fraction<T>, T>("raw " + n, w);
  add<ieme::fraction<T>, T>("default " + n, w);
  add<ieme::fraction<T, pol::at<2>::ops>, T>("fast " + n, w);
  add<ieme::fraction<T, pol::at<9>::ops>, T>("out_ign(safe) " + n, w);
  add<ieme::fraction<T, pol::at<5>::ops>, T>("fast_i " + n, w);
}

PBT_REGISTER([] {
  pbt::rule()
    = "components of any size, sign and common factor, reduced and almost reduced "
      "ones, zeros, undefined ones, each also in another form of equal value; all "
      "entry points, twice; non-trivial: reduction changes the components or the "
      "value is negative";
#if PART == 0
  add_rep<int>(3);
#elif PART == 1
  add_rep<long>(3);
#elif PART == 2
  add_rep<long long>(2);
#elif PART == 3
  add_rep<unsigned>(1);
#elif PART == 4
  add_rep<unsigned long>(1);
#else
  add_rep<unsigned long long>(1);
#endif
});

} // namespace
