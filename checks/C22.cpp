// C22: wrapped clocks report exactly what the clock underneath reported.
#include "policies.hpp"

#include <ieme/chrono.hpp>

using namespace ref;

namespace {

// A clock that returns scripted readings.
struct Script {
  static inline std::vector<i128> readings;
  static inline std::size_t calls = 0;
};

template <typename Rep, typename Period, bool Steady>
struct Fake {
  using rep = Rep;
  using period = Period;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<Fake>;
  static constexpr bool is_steady = Steady;
  static time_point now() noexcept
  {
    i128 const v = Script::calls < Script::readings.size() ? Script::readings[Script::calls] : 0;
    ++Script::calls;
    return time_point {duration {Rep(v)}};
  }
};

struct Period {
  i128 num, den;
};

struct Api {
  std::string name;
  PolicyInfo p;
  RepInfo r;
  Period p1, p2;
  bool steady_under, steady_wrapped;
  Comp (*now)();                         // count of a wrapped reading
  Comp (*minus)(int order);              // difference of two wrapped readings
  unsigned (*compare)();                 // two wrapped readings
  Comp (*to_fractional)(i128 v);         // time point of the clock
  Comp (*to_fractional2)(i128 v, int rep); // time point of the clock in other durations
  Comp (*from_tp)(i128 v);               // converted implicitly to the wrapper's
  Comp (*advance)(Comp const& by, bool sub); // wrapped reading +/- duration
};

template <typename T, typename O, typename P1, typename P2, bool Steady>
struct Impl {
  using Clock = Fake<T, P1, Steady>;
  using W = ieme::chrono::clock_wrapper<Clock, P2, O>;
  using F = ieme::fraction<T, O>;
  using D2 = std::chrono::duration<F, typename P2::type>;
  using TP2 = std::chrono::time_point<Clock, D2>;
  static_assert(std::is_same_v<typename W::clock_type, Clock>);
  static_assert(std::is_same_v<typename W::ops_type, O>);
  static_assert(std::is_same_v<typename W::rep, F>);
  static_assert(std::ratio_equal_v<typename W::period, P2>);
  static_assert(std::is_same_v<typename W::duration, D2>);
  static_assert(std::is_same_v<typename W::time_point, TP2>);
  static_assert(std::is_same_v<decltype(W::now()), TP2>);
  static constexpr bool steady = W::is_steady; // usable in a constant expression

  static Comp now() { return pol::comp(W::now().time_since_epoch().count()); }
  static Comp minus(int order)
  {
    auto const a = W::now();
    auto const b = W::now();
    return pol::comp((order ? b - a : a - b).count());
  }
  static unsigned compare()
  {
    auto const a = W::now();
    auto const b = W::now();
    return unsigned(a == b) | unsigned(a != b) << 1 | unsigned(a < b) << 2 | unsigned(a <= b) << 3
           | unsigned(a > b) << 4 | unsigned(a >= b) << 5;
  }
  static Comp to_fractional(i128 v)
  {
    typename Clock::time_point const t {typename Clock::duration {T(v)}};
    if constexpr (std::is_same_v<O, ieme::ops::defaults>)
    {
      auto const f = ieme::chrono::to_fractional(t);
      static_assert(std::is_same_v<std::remove_const_t<decltype(f)>,
                                   std::chrono::time_point<Clock, std::chrono::duration<F, P1>>>);
      return pol::comp(f.time_since_epoch().count());
    }
    else
    {
      ieme::chrono::time_point_like<typename Clock::time_point, O> const f(t);
      return pol::comp(f.time_since_epoch().count());
    }
  }
  template <typename U, typename P>
  static Comp to_fractional_as(i128 v)
  {
    using D = std::chrono::duration<U, P>;
    std::chrono::time_point<Clock, D> const t {D {U(v)}};
    if constexpr (std::is_same_v<O, ieme::ops::defaults>)
    {
      auto const f = ieme::chrono::to_fractional(t);
      static_assert(std::is_same_v<std::remove_const_t<decltype(f)>,
                                   std::chrono::time_point<Clock, std::chrono::duration<ieme::fraction<U, O>, typename P::type>>>);
      return pol::comp(f.time_since_epoch().count());
    }
    else
    {
      ieme::chrono::time_point_like<std::chrono::time_point<Clock, D>, O> const f(t);
      return pol::comp(f.time_since_epoch().count());
    }
  }
  static Comp to_fractional2(i128 v, int rep)
  {
    switch (rep)
    {
      case 0:
        return to_fractional_as<int, P2>(v);
      case 1:
        return to_fractional_as<unsigned, P1>(v);
      case 2:
        return to_fractional_as<long, P2>(v);
      case 3:
        return to_fractional_as<long long, std::ratio<3, 10000000>>(v);
      default:
        return to_fractional_as<long long, std::ratio<86400>>(v);
    }
  }
  static Comp from_tp(i128 v)
  {
    typename Clock::time_point const t {typename Clock::duration {T(v)}};
    typename W::time_point const f = t;
    return pol::comp(f.time_since_epoch().count());
  }
  static Comp advance(Comp const& by, bool sub)
  {
    auto const t = W::now();
    D2 const d {pol::make<T, O>(by)};
    if (sub)
      return pol::comp((t - d).time_since_epoch().count());
    return pol::comp((t + d).time_since_epoch().count());
  }
};

Comp in_seconds(Comp const& c, Period const& p, bool& ok)
{
  return exact(TIMES, c, {p.num, p.den}, ok);
}

bool convertible(Api const& api, i128 v)
{
  Comp const f = lowest({api.p1.num * api.p2.den, api.p1.den * api.p2.num});
  Fit fit = fit_of(api.r);
  fit.in(v);
  fit.in(f.n);
  fit.in(f.d);
  fit.mul(v, f.n);
  return fit.ok;
}

bool fits(RepInfo const& r, Comp const& c) { return r.fits(c.n) && r.fits(c.d) && c.d != 0; }

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  auto per = [](Period const& p) { return "[" + str(p.num) + "/" + str(p.den) + "]"; };
  c.check(api.steady_under == api.steady_wrapped, [&](auto& o) {
    o << "a " << (api.steady_under ? "" : "non-") << "steady clock is wrapped by a "
      << (api.steady_wrapped ? "" : "non-") << "steady one (" << api.name << ")";
  });
  // A history of readings (steady clocks never go back).
  int const n = 2 + int(s.below(4));
  std::vector<i128> r;
  for (int i = 0; i < n; ++i)
  {
    i128 v = s.below(4) == 0 || r.empty() ? gen_int(s, api.r) : r.back() + i128(s.below(2000)) - (api.steady_under || !api.r.is_signed ? 0 : 1000);
    for (int k = 0; k < 140 && !convertible(api, v); ++k)
      v /= 2;
    if (!convertible(api, v))
      c.discard();
    if (api.steady_under && !r.empty() && v < r.back())
      v = r.back();
    r.push_back(v);
  }
  c.nontrivial(api.p1.num != api.p2.num || api.p1.den != api.p2.den);
  c.note([&](auto& o) {
    o << "readings";
    for (i128 v : r)
      o << " " << str(v);
    o << per(api.p1) << " wrapped as " << per(api.p2);
  });
  Script::readings = r;
  Script::calls = 0;
  std::vector<Comp> w;
  for (int i = 0; i < n; ++i)
  {
    Comp const got = api.now();
    c.check(Script::calls == std::size_t(i) + 1, [&](auto& o) {
      o << "reading the wrapped clock " << i + 1 << " times read the underlying clock "
        << Script::calls << " times (" << api.name << ")";
    });
    bool ok = true;
    Comp const want = in_seconds({r[i], 1}, api.p1, ok), have = in_seconds(got, api.p2, ok);
    c.check(ok && got.d != 0 && cmp(want, have) == 0, [&](auto& o) {
      o << "the clock reported " << str(r[i]) << per(api.p1) << ", its wrapper " << str(got)
        << per(api.p2) << " (" << api.name << ")";
    });
    w.push_back(got);
    Comp const f = api.to_fractional(r[i]);
    c.check(f.d != 0 && cmp(f, {r[i], 1}) == 0, [&](auto& o) {
      o << "the time point " << str(r[i]) << per(api.p1) << " became fractional " << str(f) << " ("
        << api.name << ")";
    });
    int const rep = int(s.below(5));
    i128 const top[] = {2147483647, 4294967295, 9223372036854775807, 9223372036854775807, 9223372036854775807};
    i128 t = s.coin() ? r[i] : gen_int(s, rep_info<long long>());
    if (rep == 1 && t < 0)
      t = -t;
    while (t > top[rep] || t < -top[rep])
      t /= 2;
    if (s.one_in(4))
      t -= t % 10000000;
    Comp const h = api.to_fractional2(t, rep);
    c.check(h.d != 0 && cmp(h, {t, 1}) == 0, [&](auto& o) {
      o << "the time point " << str(t) << " (kind " << rep << ") became fractional " << str(h) << " ("
        << api.name << ")";
    });
    Comp const g = api.from_tp(r[i]);
    c.check(g.d != 0 && cmp(g, got) == 0, [&](auto& o) {
      o << "the time point " << str(r[i]) << per(api.p1) << " converted to " << str(g)
        << per(api.p2) << " (" << api.name << ")";
    });
  }
  for (int i = 0; i + 1 < n; ++i)
  {
    Comp const &a = w[i], &b = w[i + 1];
    if (!fits(api.r, a) || !fits(api.r, b))
      continue;
    if (compare_fits(api.p, api.r, FF, a, b))
    {
      Script::readings = {r[i], r[i + 1]};
      Script::calls = 0;
      unsigned const got = api.compare();
      int const k = r[i] < r[i + 1] ? -1 : r[i] > r[i + 1];
      unsigned const want = unsigned(k == 0) | unsigned(k != 0) << 1 | unsigned(k < 0) << 2
                            | unsigned(k <= 0) << 3 | unsigned(k > 0) << 4 | unsigned(k >= 0) << 5;
      c.check(got == want, [&](auto& o) {
        o << "comparing the wrapped readings " << str(r[i]) << " and " << str(r[i + 1]) << " gave "
          << got << ", expected " << want << " (bits == != < <= > >=) (" << api.name << ")";
      });
      c.label("comparison");
    }
    for (int order = 0; order < 2; ++order)
    {
      if (!working_fits(api.p, api.r, MINUS, FF, order ? b : a, order ? a : b))
        continue;
      Script::readings = {r[i], r[i + 1]};
      Script::calls = 0;
      Comp const got = api.minus(order);
      bool ok = true;
      i128 const d = order ? r[i + 1] - r[i] : r[i] - r[i + 1];
      Comp const want = in_seconds({d, 1}, api.p1, ok), have = in_seconds(got, api.p2, ok);
      if (!ok)
        continue;
      c.check(got.d != 0 && cmp(want, have) == 0, [&](auto& o) {
        o << "the difference of the wrapped readings " << str(r[i]) << " and " << str(r[i + 1])
          << " is " << str(got) << per(api.p2) << " (" << api.name << ")";
      });
      c.label("difference");
    }
    Comp by = {i128(s.below(100)) - (api.r.is_signed ? 50 : 0), i128(1 + s.below(12))};
    bool const sub = s.coin();
    if (working_fits(api.p, api.r, sub ? MINUS : PLUS, FF, a, by))
    {
      Script::readings = {r[i]};
      Script::calls = 0;
      Comp const got = api.advance(by, sub);
      bool ok = true;
      Comp const want = exact(sub ? MINUS : PLUS, a, by, ok);
      if (!ok)
        continue;
      c.check(got.d != 0 && cmp(want, got) == 0, [&](auto& o) {
        o << "the reading " << str(a) << (sub ? " - " : " + ") << str(by) << per(api.p2)
          << " gave " << str(got) << " (" << api.name << ")";
      });
      c.label("moved");
    }
  }
}

template <typename T, typename P, typename P1, typename P2, bool Steady>
void add(double w)
{
  using O = typename P::ops;
  using I = Impl<T, O, P1, P2, Steady>;
  auto* a = new Api {P::info().name + " " + rep_name<T>() + " " + std::to_string(P1::num) + "/"
                       + std::to_string(P1::den) + " " + std::to_string(P2::num) + "/"
                       + std::to_string(P2::den) + (Steady ? " steady" : ""),
                     P::info(), rep_info<T>(), {P1::num, P1::den}, {P2::num, P2::den},
                     Steady, I::steady, &I::now, &I::minus, &I::compare, &I::to_fractional,
                     &I::to_fractional2, &I::from_tp, &I::advance};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

// The clocks of the standard library: a wrapped reading lies between two
// readings of a steady clock.
template <typename Clock, typename Period>
void real_clock(std::string const& name)
{
  using W = ieme::chrono::clock_wrapper<Clock, Period>;
  static_assert(W::is_steady == Clock::is_steady);
  pbt::add(name, 0.02, [name](Ctx& c) {
    auto const a = Clock::now();
    auto const m = W::now();
    auto const b = Clock::now();
    c.src.draw(~0ULL);
    c.nontrivial();
    Comp const got = pol::comp(m.time_since_epoch().count());
    bool ok = true;
    Comp const t = exact(TIMES, got, {i128(Period::num) * Clock::period::den, i128(Period::den) * Clock::period::num}, ok);
    c.check(ok && t.d != 0 && cmp(t, {i128(a.time_since_epoch().count()), 1}) >= 0
              && cmp(t, {i128(b.time_since_epoch().count()), 1}) <= 0,
            [&](auto& o) { o << "a wrapped reading of " << name << " lies outside the readings around it"; });
  });
}

template <typename T, typename P>
void add_periods(double w)
{
  using sec = std::ratio<1>;
  using min = std::ratio<60>;
  add<T, P, sec, sec, true>(w);
  add<T, P, std::milli, sec, false>(w);
  add<T, P, std::milli, std::micro, true>(w);
  add<T, P, std::micro, std::milli, false>(w);
  add<T, P, min, sec, false>(w);
  add<T, P, sec, min, true>(w);
  add<T, P, std::ratio<1, 3>, std::ratio<5, 7>, false>(w);
  add<T, P, std::ratio<3, 10000000>, std::ratio<3, 1000000>, false>(w);
  add<T, P, std::ratio<1001, 30000>, std::ratio<2, 90>, true>(w);
#if PART == 1 || PART == 2
  add<T, P, std::nano, sec, true>(w);
  add<T, P, std::nano, std::ratio<3600>, false>(w);
#endif
}

PBT_REGISTER([] {
  pbt::rule()
    = "histories of 2 to 5 scripted readings of a fake clock (any size the conversion allows, "
      "steady clocks not going back) through wrappers of finer, coarser and coprime periods, "
      "time points, differences, comparisons, moves by fractional durations, and the clocks "
      "of the standard library; non-trivial: the wrapper's period differs";
#if PART == 0
  add_periods<int, pol::at<0>>(1);
  static_assert(std::is_same_v<ieme::chrono::clock_wrapper<Fake<int, std::milli, true>>::period, std::milli>);
  static_assert(std::is_same_v<ieme::chrono::clock_wrapper<Fake<int, std::milli, true>>::ops_type, ieme::ops::defaults>);
#elif PART == 1
  add_periods<long, pol::at<0>>(1);
  real_clock<std::chrono::steady_clock, std::ratio<1>>("steady_clock in seconds");
  real_clock<std::chrono::steady_clock, std::nano>("steady_clock in nanoseconds");
  real_clock<std::chrono::steady_clock, std::ratio<3600>>("steady_clock in hours");
#elif PART == 2
  add_periods<long long, pol::at<0>>(1);
#elif PART == 3
  add_periods<long, pol::at<2>>(1);
#elif PART == 4
  add_periods<int, pol::at<1>>(1);
#else
  add_periods<long, pol::at<7>>(1);
  add_periods<unsigned, pol::at<0>>(0.3);
  add_periods<unsigned long, pol::at<0>>(0.3);
#endif
});

} // namespace
