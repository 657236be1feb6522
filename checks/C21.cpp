// C21: durations with fractional counts convert and combine exactly.
#include "policies.hpp"

#include <ieme/chrono.hpp>

using namespace ref;

namespace {

struct Period {
  i128 num, den;
};

struct Api {
  std::string name;
  PolicyInfo p;
  RepInfo r;
  Period p1, p2, common;
  Comp (*convert)(Comp const& v, bool cast);      // P1 -> P2
  Comp (*there_and_back)(Comp const& v);          // P1 -> P2 -> P1
  bool (*back_equal)(Comp const& v);              // ... == the original
  Comp (*from_int)(i128 v, bool cast);            // integer P1 -> fractional P2
  Comp (*from_other)(i128 v, int rep, bool cast); // ... of another integer type
  Comp (*to_fractional)(i128 v);                  // integer P1 -> fractional P1
  Comp (*common1)(Comp const& v);
  Comp (*common2)(Comp const& v);
  Comp (*binary)(int op, Comp const& a, Comp const& b); // + - / %
  unsigned (*compare)(Comp const& a, Comp const& b);
  Comp (*scalar)(int op, Comp const& a, Comp const& b, int kind);
  Comp (*compound)(int op, Comp const& a, Comp const& b); // += -= with a P1
  Comp (*unary)(int which, Comp const& a);
};

template <typename T, typename O, typename P1, typename P2>
struct Impl {
  using F = ieme::fraction<T, O>;
  using D1 = ieme::chrono::duration<T, P1, O>;
  using D2 = ieme::chrono::duration<T, P2, O>;
  using C = std::common_type_t<D1, D2>;
  static_assert(std::is_same_v<typename D1::rep, F>);
  static F make(Comp const& v) { return pol::make<T, O>(v); }

  static Comp convert(Comp const& v, bool cast)
  {
    D1 const d {make(v)};
    if (cast)
      return pol::comp(std::chrono::duration_cast<D2>(d).count());
    D2 const e = d;
    return pol::comp(e.count());
  }
  static Comp there_and_back(Comp const& v)
  {
    D1 const d {make(v)};
    D2 const e = d;
    D1 const f = e;
    return pol::comp(f.count());
  }
  static bool back_equal(Comp const& v)
  {
    D1 const d {make(v)};
    D2 const e = d;
    D1 const f = e;
    return f == d && !(f != d);
  }
  static Comp from_int(i128 v, bool cast)
  {
    std::chrono::duration<T, P1> const d {T(v)};
    if (cast)
      return pol::comp(std::chrono::duration_cast<D2>(d).count());
    D2 const e = d;
    return pol::comp(e.count());
  }
  template <typename U>
  static Comp from_other_rep(i128 v, bool cast)
  {
    std::chrono::duration<U, P1> const d {U(v)};
    if (cast)
      return pol::comp(std::chrono::duration_cast<D2>(d).count());
    D2 const e = d;
    return pol::comp(e.count());
  }
  static Comp from_other(i128 v, int rep, bool cast)
  {
    switch (rep)
    {
      case 0:
        return from_other_rep<short>(v, cast);
      case 1:
        return from_other_rep<int>(v, cast);
      case 2:
        return from_other_rep<unsigned>(v, cast);
      case 3:
        return from_other_rep<long>(v, cast);
      case 4:
        return from_other_rep<unsigned long>(v, cast);
      default:
        return from_other_rep<long long>(v, cast);
    }
  }
  static Comp to_fractional(i128 v)
  {
    std::chrono::duration<T, P1> const d {T(v)};
    if constexpr (std::is_same_v<O, ieme::ops::defaults>)
    {
      auto const f = ieme::chrono::to_fractional(d);
      static_assert(std::is_same_v<std::remove_const_t<decltype(f)>, D1>);
      return pol::comp(f.count());
    }
    else
    { // (to_fractional takes no explicit policy: the two overloads are ambiguous)
      ieme::chrono::duration_like<std::chrono::duration<T, P1>, O> const f(d);
      static_assert(std::is_same_v<std::remove_const_t<decltype(f)>, D1>);
      return pol::comp(f.count());
    }
  }
  static Comp common1(Comp const& v) { return pol::comp(C(D1 {make(v)}).count()); }
  static Comp common2(Comp const& v) { return pol::comp(C(D2 {make(v)}).count()); }
  static Comp binary(int op, Comp const& a, Comp const& b)
  {
    D1 const x {make(a)};
    D2 const y {make(b)};
    switch (op)
    {
      case PLUS:
        return pol::comp((x + y).count());
      case MINUS:
        return pol::comp((x - y).count());
      case DIVIDES:
        return pol::comp(x / y);
      default:
        return pol::comp((x % y).count());
    }
  }
  static unsigned compare(Comp const& a, Comp const& b)
  {
    D1 const x {make(a)};
    D2 const y {make(b)};
    return unsigned(x == y) | unsigned(x != y) << 1 | unsigned(x < y) << 2 | unsigned(x <= y) << 3
           | unsigned(x > y) << 4 | unsigned(x >= y) << 5;
  }
  static Comp scalar(int op, Comp const& a, Comp const& b, int kind)
  {
    D1 x {make(a)};
    switch (kind)
    {
      case 0:
        return pol::comp((op == TIMES ? D1(x * make(b)) : op == DIVIDES ? D1(x / make(b)) : D1(x % make(b))).count());
      case 1:
        if (op == TIMES)
          x *= make(b);
        else
          x /= make(b);
        return pol::comp(x.count());
      default: // a whole number
        return pol::comp((op == TIMES ? D1(x * T(b.n)) : op == DIVIDES ? D1(x / T(b.n)) : D1(x % T(b.n))).count());
    }
  }
  static Comp compound(int op, Comp const& a, Comp const& b)
  {
    D1 x {make(a)};
    D1 const y {make(b)};
    if (op == PLUS)
      x += y;
    else
      x -= y;
    return pol::comp(x.count());
  }
  static Comp unary(int which, Comp const& a)
  {
    D1 x {make(a)};
    switch (which)
    {
      case 0:
        return pol::comp((+x).count());
      case 1:
        return pol::comp((-x).count());
      default:
        if constexpr (std::numeric_limits<T>::is_signed)
          return pol::comp(std::chrono::abs(x).count());
        else
          return pol::comp(x.count());
    }
  }
};

// c in units of p, in seconds; exact, in lowest terms.
Comp in_seconds(Comp const& c, Period const& p, bool& ok)
{
  return exact(TIMES, c, {p.num, p.den}, ok);
}

// May a count of period a be converted to period b?
bool convertible(Api const& api, Comp const& v, Period const& a, Period const& b)
{
  Comp const f = lowest({a.num * b.den, a.den * b.num});
  Fit fit = fit_of(api.r);
  fit.in(v.n);
  fit.in(v.d);
  fit.in(f.n);
  fit.in(f.d);
  fit.mul(v.n, f.n);
  fit.mul(v.d, f.d);
  return fit.ok && v.d != 0;
}

bool fits(RepInfo const& r, Comp const& c) { return r.fits(c.n) && r.fits(c.d); }

template <typename Pred>
void shrink_to(Src& s, Comp& v, Pred ok)
{
  for (int k = 0; k < 140 && !ok(); ++k)
  {
    i128& x = s.coin() ? v.n : v.d;
    x /= 2;
    if (v.d == 0)
      v.d = 1;
  }
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp a = s.below(3) ? gen_comp(s, api.r) : Comp {i128(s.below(200)) - (api.r.is_signed ? 100 : 0), i128(1 + s.below(20))};
  Comp b = s.below(3) ? gen_comp(s, api.r) : Comp {i128(s.below(200)) - (api.r.is_signed ? 100 : 0), i128(1 + s.below(20))};
  auto per = [](Period const& p) { return "[" + str(p.num) + "/" + str(p.den) + "]"; };
  bool ok = true;
  c.nontrivial(api.p1.num != api.p2.num || api.p1.den != api.p2.den || a.d != 1);
  switch (s.below(8))
  {
    case 0:
    case 1:
    { // conversion of a fractional duration
      auto dom = [&] { return convertible(api, a, api.p1, api.p2); };
      shrink_to(s, a, dom);
      if (!dom())
        c.discard();
      c.note([&](auto& o) { o << "convert " << str(a) << per(api.p1) << " to " << per(api.p2); });
      Comp const want = in_seconds(a, api.p1, ok);
      for (int cast = 0; cast < 2; ++cast)
      {
        Comp const got = api.convert(a, cast != 0);
        bool ok2 = true;
        c.check(got.d != 0 && cmp(in_seconds(got, api.p2, ok2), want) == 0 && ok2, [&](auto& o) {
          o << str(a) << per(api.p1) << " converted to " << str(got) << per(api.p2)
            << (cast ? " by duration_cast" : "") << " (" << api.name << ")";
        });
        if (!cast && fits(api.r, got) && convertible(api, got, api.p2, api.p1))
        {
          Comp const back = api.there_and_back(a);
          c.check(back.d != 0 && cmp(back, a) == 0, [&](auto& o) {
            o << str(a) << per(api.p1) << " to " << per(api.p2) << " and back gave " << str(back) << " (" << api.name << ")";
          });
          if (fits(api.r, back) && compare_fits(api.p, api.r, FF, back, a))
            c.check(api.back_equal(a), [&](auto& o) {
              o << str(a) << per(api.p1) << " to " << per(api.p2) << " and back is not equal (" << api.name << ")";
            });
          c.label("there and back");
        }
      }
      c.label("conversion");
      break;
    }
    case 2:
    { // an integer duration
      a.d = 1;
      auto dom = [&] { return convertible(api, a, api.p1, api.p2); };
      while (!dom() && a.n != 0)
        a.n /= 2;
      if (!dom())
        c.discard();
      c.note([&](auto& o) { o << "convert integer " << str(a.n) << per(api.p1) << " to " << per(api.p2); });
      Comp const want = in_seconds(a, api.p1, ok);
      for (int cast = 0; cast < 2; ++cast)
      {
        Comp const got = api.from_int(a.n, cast != 0);
        bool ok2 = true;
        c.check(got.d != 0 && cmp(in_seconds(got, api.p2, ok2), want) == 0 && ok2, [&](auto& o) {
          o << "the integer duration " << str(a.n) << per(api.p1) << " converted to " << str(got)
            << per(api.p2) << (cast ? " by duration_cast" : "") << " (" << api.name << ")";
        });
      }
      static i128 const lo[] = {-32768, -2147483647, 0, -i128(9223372036854775807), 0, -i128(9223372036854775807)};
      static i128 const hi[] = {32767, 2147483647, 4294967295, 9223372036854775807, i128(18446744073709551615ULL), 9223372036854775807};
      int const rep = int(s.below(6));
      if (a.n >= lo[rep] && a.n <= hi[rep])
      {
        static char const* const n[] = {"short", "int", "unsigned", "long", "unsigned long", "long long"};
        bool const cast = s.coin();
        Comp const got = api.from_other(a.n, rep, cast);
        bool ok2 = true;
        c.check(got.d != 0 && cmp(in_seconds(got, api.p2, ok2), want) == 0 && ok2, [&](auto& o) {
          o << "the " << n[rep] << " duration " << str(a.n) << per(api.p1) << " converted to " << str(got)
            << per(api.p2) << (cast ? " by duration_cast" : "") << " (" << api.name << ")";
        });
        c.label("integer duration of another representation");
      }
      Comp const f = api.to_fractional(a.n);
      c.check(f.d != 0 && cmp(f, a) == 0, [&](auto& o) {
        o << "to_fractional of " << str(a.n) << per(api.p1) << " gave " << str(f) << " (" << api.name << ")";
      });
      c.label("integer duration");
      break;
    }
    case 3:
    case 4:
    { // + - / % and comparisons of two durations
      static int const ops[] = {PLUS, MINUS, DIVIDES, MOD};
      int const op = ops[s.below(4)];
      Comp x, y;
      auto dom = [&](bool compare) {
        if (!convertible(api, a, api.p1, api.common) || !convertible(api, b, api.p2, api.common))
          return false;
        x = api.common1(a);
        y = api.common2(b);
        if (!fits(api.r, x) || !fits(api.r, y) || x.d == 0 || y.d == 0)
          return false;
        return compare ? compare_fits(api.p, api.r, FF, x, y) : working_fits(api.p, api.r, op, FF, x, y);
      };
      bool const compare = s.coin();
      for (int k = 0; k < 280 && !dom(compare); ++k)
      {
        i128* const cell[] = {&a.n, &a.d, &b.n, &b.d};
        *cell[s.below(4)] /= 2;
        if (a.d == 0)
          a.d = 1;
        if (b.d == 0)
          b.d = 1;
      }
      if (!dom(compare))
        c.discard();
      Comp const va = in_seconds(a, api.p1, ok), vb = in_seconds(b, api.p2, ok);
      if (!ok)
        c.discard();
      c.note([&](auto& o) {
        o << str(a) << per(api.p1) << (compare ? " <=> " : std::string(" ") + op_name(op) + " ") << str(b) << per(api.p2);
      });
      if (compare)
      {
        bool ok2 = true;
        Comp const d = exact(MINUS, va, vb, ok2);
        if (!ok2)
          c.discard();
        int const k = sgn(d.n);
        unsigned const want = unsigned(k == 0) | unsigned(k != 0) << 1 | unsigned(k < 0) << 2
                              | unsigned(k <= 0) << 3 | unsigned(k > 0) << 4 | unsigned(k >= 0) << 5;
        unsigned const got = api.compare(a, b);
        c.check(got == want, [&](auto& o) {
          o << "comparing " << str(a) << per(api.p1) << " with " << str(b) << per(api.p2) << " gave "
            << got << ", expected " << want << " (bits == != < <= > >=) (" << api.name << ")";
        });
        c.label("comparison");
        break;
      }
      bool ok2 = true;
      Comp const want = exact(op, va, vb, ok2);
      Comp const got = api.binary(op, a, b);
      auto message = [&](auto& o) {
        o << str(a) << per(api.p1) << " " << op_name(op) << " " << str(b) << per(api.p2) << " gave "
          << str(got) << (op == DIVIDES ? "" : per(api.common)) << " (" << api.name << ")";
      };
      if (!ok2)
        c.discard();
      if (want.d == 0)
        c.check(got.d == 0, message);
      else
      {
        Comp g = got;
        bool ok3 = true;
        if (op != DIVIDES && got.d != 0)
          g = in_seconds(got, api.common, ok3);
        c.check(got.d != 0 && ok3 && cmp(g, want) == 0, message);
      }
      c.label("two durations");
      break;
    }
    case 5:
    { // scalars
      static int const ops[] = {TIMES, DIVIDES, MOD};
      int const op = ops[s.below(3)];
      // (the standard library offers no %= for such durations)
      int const kind = op == MOD ? 2 * int(s.below(2)) : int(s.below(3));
      if (kind == 2)
        b.d = 1;
      // whole numbers become fractions over one
      auto dom = [&] { return fits(api.r, a) && fits(api.r, b) && a.d && b.d && working_fits(api.p, api.r, op, FF, a, b) && working_fits(api.p, api.r, op, FR, a, b); };
      auto dom2 = [&] { return kind == 2 ? dom() : fits(api.r, a) && fits(api.r, b) && a.d && b.d && working_fits(api.p, api.r, op, FF, a, b); };
      for (int k = 0; k < 280 && !dom2(); ++k)
      {
        i128* const cell[] = {&a.n, &a.d, &b.n, &b.d};
        *cell[s.below(4)] /= 2;
        if (a.d == 0)
          a.d = 1;
        if (b.d == 0)
          b.d = 1;
      }
      if (!dom2())
        c.discard();
      c.note([&](auto& o) { o << str(a) << per(api.p1) << " " << op_name(op) << " " << str(b) << " kind " << kind; });
      Comp const want = exact(op, a, b, ok);
      Comp const got = api.scalar(op, a, b, kind);
      c.check(want.d == 0 ? got.d == 0 : got.d != 0 && cmp(got, want) == 0, [&](auto& o) {
        o << str(a) << per(api.p1) << " " << op_name(op) << (kind == 1 ? "= " : " ") << str(b)
          << (kind == 2 ? " (whole)" : "") << " gave " << str(got) << " (" << api.name << ")";
      });
      c.label("scalar");
      break;
    }
    case 6:
    { // compound with a duration
      static int const ops[] = {PLUS, MINUS};
      int const op = ops[s.below(2)];
      auto dom = [&] { return fits(api.r, a) && fits(api.r, b) && working_fits(api.p, api.r, op, FF, a, b); };
      for (int k = 0; k < 280 && !dom(); ++k)
      {
        i128* const cell[] = {&a.n, &a.d, &b.n, &b.d};
        *cell[s.below(4)] /= 2;
        if (a.d == 0)
          a.d = 1;
        if (b.d == 0)
          b.d = 1;
      }
      if (!dom())
        c.discard();
      c.note([&](auto& o) { o << str(a) << " " << op_name(op) << "= " << str(b) << per(api.p1); });
      Comp const want = exact(op, a, b, ok);
      Comp const got = api.compound(op, a, b);
      c.check(want.d == 0 ? got.d == 0 : got.d != 0 && cmp(got, want) == 0, [&](auto& o) {
        o << str(a) << " " << op_name(op) << "= " << str(b) << " gave " << str(got) << " (" << api.name << ")";
      });
      c.label("compound");
      break;
    }
    case 7:
    {
      int which = int(s.below(3));
      if (!api.r.is_signed && a.n != 0 && which == 1)
        which = 0;
      auto dom = [&] { return fits(api.r, a) && compare_fits(api.p, api.r, FF, a, {0, 1}); };
      shrink_to(s, a, dom);
      if (!dom())
        c.discard();
      static char const* const n[] = {"+", "-", "abs"};
      c.note([&](auto& o) { o << n[which] << " " << str(a) << per(api.p1); });
      Comp want = a;
      if (which == 1)
        want.n = -want.n;
      else if (which == 2)
        want = {i128(mag(a.n)), i128(mag(a.d))};
      Comp const got = api.unary(which, a);
      c.check(got.d != 0 && cmp(got, want) == 0, [&](auto& o) {
        o << n[which] << " of the duration " << str(a) << " gave " << str(got) << " (" << api.name << ")";
      });
      c.label("unary");
      break;
    }
  }
}

template <typename T, typename P, typename P1, typename P2>
void add(double w)
{
  using O = typename P::ops;
  using I = Impl<T, O, P1, P2>;
  using C = typename I::C::period;
  auto* a = new Api {P::info().name + " " + rep_name<T>() + " " + std::to_string(P1::num) + "/"
                       + std::to_string(P1::den) + " " + std::to_string(P2::num) + "/"
                       + std::to_string(P2::den),
                     P::info(), rep_info<T>(), {P1::num, P1::den}, {P2::num, P2::den},
                     {C::num, C::den}, &I::convert, &I::there_and_back, &I::back_equal,
                     &I::from_int, &I::from_other, &I::to_fractional, &I::common1, &I::common2, &I::binary,
                     &I::compare, &I::scalar, &I::compound, &I::unary};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

template <typename T, typename P>
void add_periods(double w)
{
  using sec = std::ratio<1>;
  using min = std::ratio<60>;
  using hour = std::ratio<3600>;
  add<T, P, sec, std::milli>(w);
  add<T, P, std::milli, sec>(w);
  add<T, P, std::milli, std::micro>(w);
  add<T, P, hour, min>(w);
  add<T, P, sec, hour>(w);
  add<T, P, sec, sec>(w);
  add<T, P, std::ratio<1, 3>, std::ratio<5, 7>>(w);
  add<T, P, std::ratio<1001, 30000>, std::milli>(w);
  add<T, P, min, std::ratio<1, 90>>(w);
  add<T, P, std::ratio<3, 10000000>, std::ratio<7, 1000000>>(w);
#if PART == 1 || PART == 2
  add<T, P, std::nano, sec>(w);
  add<T, P, hour, std::nano>(w);
#endif
}

static_assert(std::is_same_v<ieme::chrono::nanoseconds, std::chrono::duration<ieme::fraction<std::chrono::nanoseconds::rep>, std::nano>>);
static_assert(std::is_same_v<ieme::chrono::microseconds, std::chrono::duration<ieme::fraction<std::chrono::microseconds::rep>, std::micro>>);
static_assert(std::is_same_v<ieme::chrono::milliseconds, std::chrono::duration<ieme::fraction<std::chrono::milliseconds::rep>, std::milli>>);
static_assert(std::is_same_v<ieme::chrono::seconds, std::chrono::duration<ieme::fraction<std::chrono::seconds::rep>, std::ratio<1>>>);
static_assert(std::is_same_v<ieme::chrono::minutes, std::chrono::duration<ieme::fraction<std::chrono::minutes::rep>, std::ratio<60>>>);
static_assert(std::is_same_v<ieme::chrono::hours, std::chrono::duration<ieme::fraction<std::chrono::hours::rep>, std::ratio<3600>>>);

PBT_REGISTER([] {
  pbt::rule()
    = "counts of any size for pairs of periods (finer, coarser, coprime), shrunk until the "
      "converted components fit; conversions both ways, implicit and by duration_cast, "
      "integer durations, sums, differences, quotients, remainders, scalars, comparisons; "
      "non-trivial: different periods or a fractional count";
#if PART == 0
  add_periods<int, pol::at<0>>(1);
#elif PART == 1
  add_periods<long, pol::at<0>>(1);
#elif PART == 2
  add_periods<long long, pol::at<0>>(1);
#elif PART == 3
  add_periods<long, pol::at<2>>(1);
#elif PART == 4
  add_periods<int, pol::at<1>>(1);
#elif PART == 5
  add_periods<long, pol::at<9>>(1);
#elif PART == 6
  add_periods<long, pol::at<5>>(1);
#else
  add_periods<int, pol::at<7>>(1);
#endif
#if PART == 5
  add_periods<unsigned, pol::at<0>>(0.5);
#elif PART == 6
  add_periods<unsigned long, pol::at<0>>(0.5);
#elif PART == 7
  add_periods<unsigned long long, pol::at<2>>(0.5);
#endif
});

} // namespace
