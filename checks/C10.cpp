// C10: queries agree with the rational value.
#include "policies.hpp"

#include <ieme/fraction_math.hpp>
#include <ieme/fraction_queries.hpp>

using namespace ref;

namespace {

enum Q {
  DEFINED, UNDEFINED, POSITIVE, NON_NEGATIVE, ZERO, NON_POSITIVE, NEGATIVE,
  INTEGER, UNIT, PROPER, IMPROPER, QUERIES
};
char const* const names[]
  = {"is_defined", "is_undefined", "is_positive", "is_non_negative", "is_zero",
     "is_non_positive", "is_negative", "is_integer", "is_unit_fraction", "is_proper",
     "is_improper"};

struct Got {
  bool q[QUERIES];
  bool identical, identical_raw, identical_cross, different, different_raw, different_cross;
  Comp reciprocal, reciprocal_raw, abs;
};

struct Api {
  std::string name;
  RepInfo r;
  Got (*all)(Comp const& v, Comp const& w, bool raw);
};

template <typename F>
void queries(F const& f, bool* q)
{
  q[DEFINED] = is_defined(f);
  q[UNDEFINED] = is_undefined(f);
  q[POSITIVE] = is_positive(f);
  q[NON_NEGATIVE] = is_non_negative(f);
  q[ZERO] = is_zero(f);
  q[NON_POSITIVE] = is_non_positive(f);
  q[NEGATIVE] = is_negative(f);
  q[INTEGER] = is_integer(f);
  q[UNIT] = is_unit_fraction(f);
  q[PROPER] = is_proper(f);
  q[IMPROPER] = is_improper(f);
}

template <typename T, typename Ops, typename Other>
Got all(Comp const& v, Comp const& w, bool raw)
{
  auto const f = pol::make<T, Ops>(v);
  auto const g = pol::make<T, Ops>(w);
  auto const h = pol::make<T, Other>(w);
  ieme::raw_fraction<T> const rf(T(v.n), T(v.d)), rg(T(w.n), T(w.d));
  Got o;
  if (raw)
    queries(rf, o.q);
  else
    queries(f, o.q);
  o.identical = are_identical(f, g);
  o.identical_raw = are_identical(rf, rg);
  o.identical_cross = are_identical(f, h);
  o.different = are_different(f, g);
  o.different_raw = are_different(rf, rg);
  o.different_cross = are_different(f, h);
  o.reciprocal = pol::comp(reciprocal(f));
  auto const r = reciprocal(rf);
  o.reciprocal_raw = {i128(r.numerator), i128(r.denominator)};
  o.abs = pol::comp(abs(f));
  return o;
}

void check_one(Ctx& c, Api const& api, Comp const& v, Comp const& w)
{
  bool const def = v.d != 0;
  int const sg = sgn(v.n) * sgn(v.d);
  bool want[QUERIES] = {};
  want[DEFINED] = def;
  want[UNDEFINED] = !def;
  if (def)
  {
    want[POSITIVE] = sg > 0;
    want[NON_NEGATIVE] = sg >= 0;
    want[ZERO] = v.n == 0;
    want[NON_POSITIVE] = sg <= 0;
    want[NEGATIVE] = sg < 0;
    want[INTEGER] = v.n % v.d == 0;
    want[UNIT] = v.n != 0 && v.d % v.n == 0;
    want[PROPER] = mag(v.n) < mag(v.d);
    want[IMPROPER] = !want[PROPER];
  }
  for (int raw = 0; raw < 2; ++raw)
  {
    Got const g = api.all(v, w, raw != 0);
    for (int i = 0; i < QUERIES; ++i)
      if (def || (i != PROPER && i != IMPROPER))
        c.check(g.q[i] == want[i], [&](auto& o) {
          o << names[i] << "(" << str(v) << ") is " << g.q[i]
            << (raw ? " for the raw fraction" : "") << " (" << api.name << ")";
        });
    bool const id = same(v, w);
    c.check(g.identical == id && g.identical_raw == id && g.identical_cross == id
              && g.different == !id && g.different_raw == !id && g.different_cross == !id,
            [&](auto& o) {
              o << "are_identical/are_different of " << str(v) << " and " << str(w) << ": "
                << g.identical << g.identical_raw << g.identical_cross << " "
                << g.different << g.different_raw << g.different_cross << " (" << api.name << ")";
            });
    Comp const rec = {v.d, v.n};
    c.check(same(g.reciprocal, rec) && same(g.reciprocal_raw, rec), [&](auto& o) {
      o << "reciprocal of " << str(v) << " gave " << str(g.reciprocal) << " and (raw) "
        << str(g.reciprocal_raw) << " (" << api.name << ")";
    });
    Comp a = v;
    if (sg < 0)
      a.n = -a.n;
    c.check(def ? g.abs.d != 0 && cmp(g.abs, a) == 0 : g.abs.d == 0, [&](auto& o) {
      o << "abs of " << str(v) << " gave " << str(g.abs) << " (" << api.name << ")";
    });
  }
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp v = gen_comp(s, api.r);
  auto sign = [&](i128 x) { return api.r.is_signed && s.coin() ? -x : x; };
  switch (s.below(12))
  {
    case 4:
      v = {gen_int(s, api.r), 0};
      break;
    case 5:
      v = {0, gen_nonzero(s, api.r)};
      break;
    case 6:
    { // integers and reciprocals of integers, or just off
      i128 const d = 1 + gen_mag(s, api.r.max / 2);
      i128 const k = gen_mag(s, api.r.max / d);
      i128 n = k * d + (s.below(3) == 2 ? i128(s.below(3)) - 1 : 0);
      if (n < 0 || n > api.r.max)
        n = d;
      v = {sign(n), sign(d)};
      if (s.coin() && v.n != 0)
        std::swap(v.n, v.d);
      break;
    }
    case 7:
    { // magnitude one, or next to it
      i128 const d = 1 + gen_mag(s, api.r.max - 2);
      v = {sign(d + i128(s.below(3)) - 1), sign(d)};
      break;
    }
    default:
      break;
  }
  Comp w = v;
  switch (s.below(5))
  {
    case 0:
      break;
    case 1:
      w = {v.d, v.n};
      break;
    case 2:
      w = {sign(v.n), sign(v.d)};
      break;
    case 3:
    {
      i128 const k = i128(s.below(4));
      w = {v.n * k, v.d * k};
      if (!api.r.fits(w.n) || !api.r.fits(w.d))
        w = {v.n, 1};
      break;
    }
    case 4:
      w = s.coin() ? Comp {gen_int(s, api.r), v.d} : Comp {v.n, gen_int(s, api.r)};
      break;
  }
  c.note([&](auto& o) { o << str(v) << ", other " << str(w); });
  check_one(c, api, v, w);
  c.nontrivial(v.d != 0 && v.d != 1 && v.n != 0);
  c.label_if(v.d == 0, "undefined");
  c.label_if(v.d < 0, "negative denominator");
  c.label_if(v.d != 0 && v.n != 0 && (v.n % v.d == 0 || v.d % v.n == 0), "integer or reciprocal");
}

template <typename T, typename P, typename Other>
void add(double w)
{
  auto* api = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(),
                       &all<T, typename P::ops, typename Other::ops>};
  pbt::add(api->name, w, [api](Ctx& c) { body(c, *api); });
}

template <typename P, typename Other>
void add_all()
{
  add<int, P, Other>(3);
  add<long, P, Other>(2);
  add<long long, P, Other>(2);
  add<unsigned, P, Other>(1);
  add<unsigned long, P, Other>(1);
  add<unsigned long long, P, Other>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "fractions of any value and form: integers, reciprocals of integers, magnitudes "
      "near one, zeros, undefined ones; a second fraction related to the first; "
      "non-trivial: defined, non-zero, denominator other than one";
  constexpr int p[] = {0, 2, 1, 9, 7, 5, 12, 4};
  add_all<pol::at<p[PART]>, pol::at<p[(PART + 1) % 8]>>();
});

} // namespace
