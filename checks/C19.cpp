// C19: limits bound every value, for fractions and mixed numbers alike.
#include "policies.hpp"

#include <ieme/chrono.hpp>
#include <ieme/limits.hpp>
#include <ieme/fraction_queries.hpp>

using namespace ref;

namespace {

struct Mixed {
  i128 w;
  Comp f;
};

struct Limits {
  Comp min, max, smallest, undefined;
  Comp std_min, std_lowest, std_max, epsilon, nan;
};
struct MixedLimits {
  Mixed min, max, smallest, undefined;
  Mixed std_min, std_lowest, std_max, epsilon, nan;
};

struct Api {
  std::string name;
  RepInfo r;
  Limits (*limits)();
  // Comparisons with the limits by the library: bit 0: min <= v, 1: v <= max
  unsigned (*ordered)(Comp const& v);
  char const* (*traits)();
  // min, max, zero of durations and min, max of time points
  std::vector<Comp> (*durations)();
};

struct MixedApi {
  std::string name;
  RepInfo w, f;
  MixedLimits (*limits)();
  char const* (*traits)();
  Mixed (*make)(i128 w, Comp const& f);
};

template <typename L, typename Rep>
char const* traits()
{
  using B = std::numeric_limits<Rep>;
#define TRAIT(x)                                                              \
  if (!(x))                                                                   \
    return #x;
  TRAIT(L::is_specialized)
  TRAIT(L::is_signed == B::is_signed)
  TRAIT(!L::is_integer)
  TRAIT(L::is_exact)
  TRAIT(!L::has_infinity)
  TRAIT(L::has_quiet_NaN)
  TRAIT(!L::has_signaling_NaN)
  TRAIT(!L::is_iec559)
  TRAIT(L::is_bounded)
  TRAIT(L::digits == B::digits)
  TRAIT(L::digits10 == B::digits10)
  TRAIT(L::radix == B::radix)
  TRAIT(L::max_digits10 == B::max_digits10)
  TRAIT(L::is_modulo == B::is_modulo)
  TRAIT(L::min_exponent == B::min_exponent)
  TRAIT(L::min_exponent10 == B::min_exponent10)
  TRAIT(L::max_exponent == B::max_exponent)
  TRAIT(L::max_exponent10 == B::max_exponent10)
  TRAIT(L::tinyness_before == B::tinyness_before)
  TRAIT(!L::traps)
  TRAIT(!L::has_denorm_loss)
#undef TRAIT
  return nullptr;
}

template <typename T, typename O>
Limits limits()
{
  using F = ieme::fraction<T, O>;
  using N = ieme::limits<F>;
  using S = std::numeric_limits<F>;
  static_assert(std::is_same_v<decltype(N::min()), F>);
  static_assert(std::is_same_v<decltype(S::lowest()), F>);
  constexpr F usable[] = {N::min(), N::max(), N::smallest(), N::undefined(), S::min(),
                          S::lowest(), S::max(), S::epsilon(), S::quiet_NaN()};
  return {pol::comp(usable[0]), pol::comp(usable[1]), pol::comp(usable[2]), pol::comp(usable[3]),
          pol::comp(usable[4]), pol::comp(usable[5]), pol::comp(usable[6]), pol::comp(usable[7]),
          pol::comp(usable[8])};
}

template <typename T, typename O>
unsigned ordered(Comp const& v)
{
  using F = ieme::fraction<T, O>;
  using N = ieme::limits<F>;
  auto const f = pol::make<T, O>(v);
  return unsigned(N::min() <= f) | unsigned(f <= N::max()) << 1
         | unsigned(std::numeric_limits<F>::lowest() <= f) << 2
         | unsigned(f <= std::numeric_limits<F>::max()) << 3;
}

template <typename T, typename O, typename Period>
void add_durations(std::vector<Comp>& out)
{
  using D = ieme::chrono::duration<T, Period, O>;
  using P = ieme::chrono::time_point<std::chrono::system_clock, T, Period, O>;
  constexpr D usable[] = {D::min(), D::max(), D::zero(), P::min().time_since_epoch(),
                          P::max().time_since_epoch()};
  for (auto const& d : usable)
    out.push_back(pol::comp(d.count()));
}

template <typename T, typename O>
std::vector<Comp> durations()
{
  std::vector<Comp> out;
  add_durations<T, O, std::ratio<1>>(out);
  add_durations<T, O, std::ratio<1, 30>>(out);
  add_durations<T, O, std::ratio<3600>>(out);
  return out;
}

template <typename M>
Mixed mixed(M const& m)
{
  return {i128(m.whole()), pol::comp(m.fractional())};
}

template <typename W, typename T, typename O>
MixedLimits mixed_limits()
{
  using F = ieme::mixed_number<W, T, O>;
  using N = ieme::limits<F>;
  using S = std::numeric_limits<F>;
  static_assert(std::is_same_v<decltype(N::min()), F>);
  static_assert(std::is_same_v<decltype(S::lowest()), F>);
  return {mixed(N::min()), mixed(N::max()), mixed(N::smallest()), mixed(N::undefined()),
          mixed(S::min()), mixed(S::lowest()), mixed(S::max()), mixed(S::epsilon()),
          mixed(S::quiet_NaN())};
}

template <typename W, typename T, typename O>
Mixed make_mixed(i128 w, Comp const& f)
{
  return mixed(ieme::mixed_number<W, T, O>(W(w), pol::make<T, O>(f)));
}

void check_traits(Ctx& c, std::string const& name, char const* bad)
{
  c.check(!bad, [&](auto& o) { o << "trait violated: " << bad << " (" << name << ")"; });
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  check_traits(c, api.name, api.traits());
  Limits const l = api.limits();
  c.check(same(l.min, l.std_min) && same(l.min, l.std_lowest) && same(l.max, l.std_max)
            && same(l.smallest, l.epsilon) && same(l.undefined, l.nan),
          [&](auto& o) {
            o << "native and standard limits differ: min " << str(l.min) << " " << str(l.std_min)
              << " " << str(l.std_lowest) << ", max " << str(l.max) << " " << str(l.std_max)
              << ", smallest " << str(l.smallest) << " " << str(l.epsilon) << ", undefined "
              << str(l.undefined) << " " << str(l.nan) << " (" << api.name << ")";
          });
  c.check(l.undefined.d == 0, [&](auto& o) { o << "undefined() is " << str(l.undefined); });
  c.check(l.min.d != 0 && l.max.d != 0 && l.smallest.d != 0 && cmp(l.smallest, {0, 1}) > 0,
          [&](auto& o) { o << "smallest() is " << str(l.smallest) << " (" << api.name << ")"; });
  Comp v = gen_comp(s, api.r);
  if (s.below(3) == 2)
  { // extreme values
    i128 const a = api.r.max - i128(s.below(3)), b = i128(1 + s.below(3));
    v = s.coin() ? Comp {a, b} : Comp {b, a};
    if (api.r.is_signed)
    {
      if (s.coin())
        v.n = -v.n;
      if (s.coin())
        v.d = -v.d;
    }
  }
  c.note([&](auto& o) { o << "value " << str(v); });
  c.check(cmp(l.min, v) <= 0 && cmp(v, l.max) <= 0, [&](auto& o) {
    o << str(v) << " is not between " << str(l.min) << " and " << str(l.max) << " (" << api.name << ")";
  });
  // (the most negative value over 1 times -1 is not representable)
  if (v.d == 1)
  {
    unsigned const ord = api.ordered(v);
    c.check(ord == 15, [&](auto& o) {
      o << "comparisons of " << str(v) << " with the limits give " << ord << " (" << api.name << ")";
    });
  }
  auto const durations = api.durations();
  for (std::size_t i = 0; i < durations.size(); i += 5)
    for (std::size_t k : {0, 1, 3, 4})
    {
      Comp const b = durations[i + k];
      bool const low = k % 3 == 0;
      c.check(b.d != 0 && (low ? cmp(b, v) <= 0 : cmp(v, b) <= 0) && durations[i + 2].d != 0
                && durations[i + 2].n == 0,
              [&](auto& o) {
                o << "a count of " << str(v) << " is beyond " << (low ? "min() = " : "max() = ")
                  << str(b) << " of a " << (k > 2 ? "time point" : "duration") << ", or zero() = "
                  << str(durations[i + 2]) << " (" << api.name << ")";
              });
    }
  if (v.n != 0)
  {
    Comp const p = {i128(mag(v.n)), i128(mag(v.d))};
    c.check(cmp(l.smallest, p) <= 0, [&](auto& o) {
      o << str(p) << " is positive and below smallest() = " << str(l.smallest) << " (" << api.name << ")";
    });
  }
  c.nontrivial(v.d != 1);
  c.label("fraction");
}

void mixed_body(Ctx& c, MixedApi const& api)
{
  Src& s = c.src;
  check_traits(c, api.name, api.traits());
  MixedLimits const l = api.limits();
  auto eq = [](Mixed const& a, Mixed const& b) { return a.w == b.w && same(a.f, b.f); };
  auto show = [](Mixed const& m) { return str(m.w) + " + " + str(m.f); };
  c.check(eq(l.min, l.std_min) && eq(l.min, l.std_lowest) && eq(l.max, l.std_max)
            && eq(l.smallest, l.epsilon) && eq(l.undefined, l.nan),
          [&](auto& o) {
            o << "native and standard limits of mixed numbers differ: min " << show(l.min) << ", "
              << show(l.std_min) << ", " << show(l.std_lowest) << "; max " << show(l.max) << ", "
              << show(l.std_max) << "; smallest " << show(l.smallest) << ", " << show(l.epsilon)
              << " (" << api.name << ")";
          });
  c.check(l.undefined.f.d == 0, [&](auto& o) { o << "undefined() is " << show(l.undefined); });
  c.check(l.smallest.w == 0 && l.smallest.f.d != 0 && cmp(l.smallest.f, {0, 1}) > 0,
          [&](auto& o) { o << "smallest() is " << show(l.smallest) << " (" << api.name << ")"; });
  c.check(l.min.f.d != 0 && l.max.f.d != 0, [&](auto& o) { o << "min() or max() is undefined"; });
  // whole numbers are values
  i128 w = gen_int(s, api.w);
  if (s.coin())
    w = s.coin() || !api.w.is_signed ? api.w.max : -api.w.max;
  Comp f = gen_comp(s, api.f);
  if (mag(f.n) >= mag(f.d))
    f.n %= f.d;
  c.note([&](auto& o) { o << "whole " << str(w) << ", fraction " << str(f); });
  auto below = [](Mixed const& a, i128 b) { return a.w < b || (a.w == b && cmp(a.f, {0, 1}) <= 0); };
  auto above = [](Mixed const& a, i128 b) { return a.w > b || (a.w == b && cmp(a.f, {0, 1}) >= 0); };
  c.check(below(l.min, w) && above(l.max, w), [&](auto& o) {
    o << str(w) << " is not between " << show(l.min) << " and " << show(l.max) << " (" << api.name << ")";
  });
  if (f.n != 0)
  {
    Comp const p = {i128(mag(f.n)), i128(mag(f.d))};
    Mixed const m = api.make(0, p);
    c.check(m.w == 0 && cmp(m.f, p) == 0 && cmp(l.smallest.f, m.f) <= 0, [&](auto& o) {
      o << "the mixed number " << show(m) << " is below smallest() = " << show(l.smallest) << " ("
        << api.name << ")";
    });
  }
  c.nontrivial(f.n != 0);
  c.label("mixed number");
}

template <typename T, typename P>
void add(double w)
{
  using O = typename P::ops;
  auto* a = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), &limits<T, O>, &ordered<T, O>,
                     &traits<std::numeric_limits<ieme::fraction<T, O>>, T>, &durations<T, O>};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

template <typename W, typename T, typename P>
void add_mixed(double w)
{
  using O = typename P::ops;
  auto* a = new MixedApi {P::info().name + " mixed " + rep_name<W>() + " " + rep_name<T>(),
                          rep_info<W>(), rep_info<T>(), &mixed_limits<W, T, O>,
                          &traits<std::numeric_limits<ieme::mixed_number<W, T, O>>, W>,
                          &make_mixed<W, T, O>};
  pbt::add(a->name, w, [a](Ctx& c) { mixed_body(c, *a); });
}

template <typename P>
void add_all()
{
  add<int, P>(2);
  add<long, P>(2);
  add<long long, P>(1);
  add<unsigned, P>(1);
  add<unsigned long, P>(1);
  add<unsigned long long, P>(1);
  add_mixed<int, int, P>(1);
  add_mixed<long, long, P>(1);
  add_mixed<long, int, P>(1);
  add_mixed<int, long, P>(1);
  add_mixed<long long, long long, P>(1);
  add_mixed<unsigned, unsigned, P>(1);
  add_mixed<unsigned long, unsigned, P>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "fractions and mixed numbers of any value, half of them extreme, against both "
      "limits interfaces of their type; non-trivial: not a whole number";
  add_all<pol::at<PART>>();
#if PART < 5
  add_all<pol::at<PART + 8>>();
#endif
});

} // namespace
