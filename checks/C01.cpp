// C01: arithmetic is exact under every policy, representation and operand form.
#include "policies.hpp"

using namespace ref;

namespace {

struct Result {
  Comp value;
  bool operands_kept;
};

struct Api {
  PolicyInfo p;
  RepInfo l, r, c;
  bool whole_only; // the right representation is used for whole numbers only
  Result (*bin)(int op, int form, Comp const& a, Comp const& b);
  Comp (*unary)(bool minus, Comp const& a);
};

template <typename A, typename B>
auto apply(int op, A const& a, B const& b)
{
  switch (op)
  {
    case PLUS:
      return pol::comp(a + b);
    case MINUS:
      return pol::comp(a - b);
    case TIMES:
      return pol::comp(a * b);
    case DIVIDES:
      return pol::comp(a / b);
    default:
      return pol::comp(a % b);
  }
}

template <typename L, typename R, typename Ops, bool WholeOnly>
Result bin(int op, int form, Comp const& a, Comp const& b)
{
  if (form == FR)
  {
    auto const x = pol::make<L, Ops>(a);
    auto const y = static_cast<R>(b.n);
    auto const r = apply(op, x, y);
    return {r, pol::is(x, a) && i128(y) == b.n};
  }
  if constexpr (WholeOnly)
  { // int,frac: the whole number has the right representation here as well
    auto const x = static_cast<R>(a.n);
    auto const y = pol::make<L, Ops>(b);
    auto const r = apply(op, x, y);
    return {r, pol::is(y, b) && i128(x) == a.n};
  }
  else if (form == RF)
  {
    auto const x = static_cast<L>(a.n);
    auto const y = pol::make<R, Ops>(b);
    auto const r = apply(op, x, y);
    return {r, pol::is(y, b) && i128(x) == a.n};
  }
  else
  {
    auto const x = pol::make<L, Ops>(a);
    auto const y = pol::make<R, Ops>(b);
    auto const r = apply(op, x, y);
    return {r, pol::is(x, a) && pol::is(y, b)};
  }
}

template <typename L, typename Ops>
Comp unary(bool minus, Comp const& a)
{
  auto const x = pol::make<L, Ops>(a);
  return minus ? pol::comp(-x) : pol::comp(+x);
}

std::string expr(int op, int form, Comp const& a, Comp const& b)
{
  return (form == RF ? str(a.n) : str(a)) + " " + op_name(op) + " "
         + (form == FR ? str(b.n) : str(b));
}

void binary_case(Ctx& c, Api const& api)
{
  Src& s = c.src;
  int const op = int(s.below(5));
  int form = int(s.below(4));
  form = form == 3 ? int(FF) : form;
  if (api.whole_only && form == FF)
    form = s.coin() ? FR : RF;
  RepInfo const& l = api.whole_only && form == RF ? api.r : api.l;
  RepInfo const& r = api.whole_only && form == RF ? api.l : api.r;
  Comp a, b;
  auto ok = [&](Comp const& x, Comp const& y) {
    return (op < DIVIDES || y.n != 0)
           && working_fits(api.p, api.c, op, form, x, y);
  };
  bool const need_nonzero = op >= DIVIDES;
  bool good = gen_pair(
    s, a, b, form, l, r, op == MINUS && !api.c.is_signed, [&](auto& x, auto& y) {
      if (need_nonzero && y.n == 0)
        const_cast<Comp&>(y).n = 1;
      return ok(x, y);
    });
  if (!good)
    c.discard();
  c.note([&](auto& o) { o << expr(op, form, a, b); });
  bool exact_ok = false;
  Comp const want = exact(op, a, b, exact_ok);
  if (!exact_ok)
    c.discard();
  Result const got = api.bin(op, form, a, b);
  c.check(equal(got.value, want), [&](auto& o) {
    o << expr(op, form, a, b) << " gave " << str(got.value) << ", expected "
      << str(want);
  });
  c.check(got.operands_kept, [&](auto& o) {
    o << expr(op, form, a, b) << " modified an operand";
  });
  c.nontrivial(a.n != 0 && b.n != 0
               && (form == RF || mag(a.d) > 1 || form == FR || mag(b.d) > 1));
  c.label(op_name(op));
  c.label(form_name(form));
  c.label_if(a.d < 0 || b.d < 0, "negative denominator");
  c.label_if(mag(a.n) > u128(1) << (api.c.digits - 3)
               || mag(a.d) > u128(1) << (api.c.digits - 3)
               || mag(b.n) > u128(1) << (api.c.digits - 3)
               || mag(b.d) > u128(1) << (api.c.digits - 3),
             "component near the limit");
  c.label_if(want.n == 0, "zero result");
  c.label_if(form == FF && a.d == b.d, "same denominator");
}

void unary_case(Ctx& c, Api const& api)
{
  Src& s = c.src;
  bool const minus = s.below(4) != 3;
  Comp const a = gen_comp(s, api.l);
  if (minus && !api.l.is_signed && a.n != 0)
    c.discard();
  c.note([&](auto& o) { o << (minus ? "-(" : "+(") << str(a) << ")"; });
  Comp const got = api.unary(minus, a);
  Comp const want {minus ? -a.n : a.n, a.d};
  c.check(equal(got, want), [&](auto& o) {
    o << (minus ? "-(" : "+(") << str(a) << ") gave " << str(got);
  });
  c.nontrivial(a.n != 0);
  c.label(minus ? "unary -" : "unary +");
}

template <typename L, typename R, typename P, bool WholeOnly = false>
void add_pair(double weight)
{
  using C = std::common_type_t<L, R>;
  auto const ci = rep_info<C>();
  auto* api = new Api {P::info(),
                       within(rep_info<L>(), ci),
                       within(rep_info<R>(), ci),
                       ci,
                       WholeOnly,
                       &bin<L, R, typename P::ops, WholeOnly>,
                       &unary<L, typename P::ops>};
  pbt::add(api->p.name + " " + api->l.name + (WholeOnly ? " whole " : " ")
             + api->r.name,
           weight,
           [api](Ctx& c) { binary_case(c, *api); });
  if (std::is_same_v<L, R> && std::is_signed_v<L>)
    pbt::add(api->p.name + " " + api->l.name + " unary",
             weight / 10,
             [api](Ctx& c) { unary_case(c, *api); });
}

PBT_REGISTER([] {
  pbt::rule()
    = "operands drawn from magnitude classes (small, random width, near the "
      "limit, powers of two, divisors of the limit, smooth, constants of the "
      "headers), related to each other, halved until every value the policy "
      "works with fits; non-trivial: both operands non-zero and not both whole";
  using P = pol::at<PART>;
  add_pair<int, int, P>(4);
  add_pair<long, long, P>(3);
  add_pair<long long, long long, P>(2);
  add_pair<unsigned, unsigned, P>(2);
  add_pair<unsigned long, unsigned long, P>(1);
  add_pair<unsigned long long, unsigned long long, P>(1);
  add_pair<int, long, P>(1);
  add_pair<long, int, P>(1);
  add_pair<int, long long, P>(1);
  add_pair<long long, int, P>(1);
  add_pair<long, long long, P>(0.5);
  add_pair<long long, long, P>(0.5);
  add_pair<int, unsigned, P>(1);
  add_pair<unsigned, int, P>(1);
  add_pair<unsigned, long, P>(1);
  add_pair<long, unsigned, P>(1);
  add_pair<unsigned long, int, P>(1);
  add_pair<int, unsigned long, P>(1);
  add_pair<unsigned, unsigned long, P>(0.5);
  add_pair<unsigned long, unsigned, P>(0.5);
  add_pair<long long, unsigned long, P>(0.5);
  add_pair<unsigned long, long long, P>(0.5);
  add_pair<long, unsigned long, P>(0.2);
  add_pair<unsigned long, long, P>(0.2);
  add_pair<long, unsigned long long, P>(0.2);
  add_pair<unsigned long long, long, P>(0.2);
  add_pair<long long, unsigned long long, P>(0.2);
  add_pair<unsigned long long, long long, P>(0.2);
  add_pair<unsigned, long long, P>(0.2);
  add_pair<long long, unsigned, P>(0.2);
  add_pair<int, unsigned long long, P>(0.2);
  add_pair<unsigned long long, int, P>(0.2);
  add_pair<unsigned, unsigned long long, P>(0.2);
  add_pair<unsigned long long, unsigned, P>(0.2);
  add_pair<unsigned long, unsigned long long, P>(0.2);
  add_pair<unsigned long long, unsigned long, P>(0.2);
  add_pair<int, short, P, true>(0.5);
  add_pair<long, short, P, true>(0.5);
  add_pair<long long, signed char, P, true>(0.5);
});

} // namespace
