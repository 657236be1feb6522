// C03: undefined values propagate quietly and never trap.
#include "policies.hpp"

#include <cmath>
#include <ieme/floating_point.hpp>
#include <ieme/fraction_math.hpp>
#include <ieme/fraction_queries.hpp>

using namespace ref;

namespace {

struct Api {
  PolicyInfo p;
  RepInfo l, r, c;
  bool same_rep;
  Comp (*bin)(int op, int form, bool compound, Comp const& a, Comp const& b);
  unsigned (*cmp)(int form, Comp const& a, Comp const& b);
  std::string (*unary)(Comp const& a);
};

template <typename A, typename B>
Comp apply(int op, A const& a, B const& b)
{
  switch (op)
  {
    case PLUS:
      return pol::comp(a + b);
    case MINUS:
      return pol::comp(a - b);
    case TIMES:
      return pol::comp(a * b);
    case DIVIDES:
      return pol::comp(a / b);
    default:
      return pol::comp(a % b);
  }
}

template <typename A, typename B>
Comp apply_assign(int op, A a, B const& b)
{
  switch (op)
  {
    case PLUS:
      a += b;
      break;
    case MINUS:
      a -= b;
      break;
    case TIMES:
      a *= b;
      break;
    case DIVIDES:
      a /= b;
      break;
    default:
      a %= b;
  }
  return pol::comp(a);
}

template <typename L, typename R, typename Ops>
Comp bin(int op, int form, bool compound, Comp const& a, Comp const& b)
{
  if (form == FF)
    return compound ? apply_assign(op, pol::make<L, Ops>(a), pol::make<R, Ops>(b))
                    : apply(op, pol::make<L, Ops>(a), pol::make<R, Ops>(b));
  if (form == FR)
    return compound ? apply_assign(op, pol::make<L, Ops>(a), static_cast<R>(b.n))
                    : apply(op, pol::make<L, Ops>(a), static_cast<R>(b.n));
  return apply(op, static_cast<L>(a.n), pol::make<R, Ops>(b));
}

template <typename A, typename B>
unsigned bits(A const& a, B const& b)
{
  return unsigned(bool(a == b)) | unsigned(bool(a != b)) << 1
         | unsigned(bool(a < b)) << 2 | unsigned(bool(a <= b)) << 3
         | unsigned(bool(a > b)) << 4 | unsigned(bool(a >= b)) << 5;
}

template <typename L, typename R, typename Ops>
unsigned compare(int form, Comp const& a, Comp const& b)
{
  if (form == FF)
    return bits(pol::make<L, Ops>(a), pol::make<R, Ops>(b));
  if (form == FR)
    return bits(pol::make<L, Ops>(a), static_cast<R>(b.n));
  return bits(static_cast<L>(a.n), pol::make<R, Ops>(b));
}

// Name of the first unary operation that does not stay undefined, or "".
template <typename L, typename Ops>
std::string unary(Comp const& a)
{
  auto const x = pol::make<L, Ops>(a);
  auto undef = [](auto const& f) { return f.denominator() == 0; };
  if (!is_undefined(x) || is_defined(x) || !is_undefined(x.raw()))
    return "is_undefined";
  if (!undef(+x))
    return "+x";
  if (!undef(-x))
    return "-x";
  if (!undef(abs(x)))
    return "abs";
  if (!undef(reduce(x)))
    return "reduce";
  if (!undef(reduce(x, ieme::reduce_mode::ignore_signs)))
    return "reduce(ignore_signs)";
  if (!undef(reduce(x, ieme::reduce_mode::normalize_signs)))
    return "reduce(normalize_signs)";
  if (!undef(reduce_normalize_signs(x)))
    return "reduce_normalize_signs";
  if (!undef(reduce_ignore_signs(x)))
    return "reduce_ignore_signs";
  if (!undef(normalize_signs(x)))
    return "normalize_signs";
  auto const raw = x.raw();
  if (reduce(raw).denominator != 0)
    return "reduce(raw)";
  if (reduce(raw, ieme::reduce_mode::ignore_signs).denominator != 0)
    return "reduce(raw, ignore_signs)";
  if (reduce_normalize_signs(raw).denominator != 0)
    return "reduce_normalize_signs(raw)";
  if (reduce_ignore_signs(raw).denominator != 0)
    return "reduce_ignore_signs(raw)";
  if (normalize_signs(raw).denominator != 0)
    return "normalize_signs(raw)";
  if (!std::isnan(to_float(x)))
    return "to_float";
  if (!std::isnan(to_double(x)))
    return "to_double";
  if (!std::isnan(to_long_double(x)))
    return "to_long_double";
  return "";
}

Comp gen_undefined(Src& s, RepInfo const& r) { return {gen_int(s, r), 0}; }

std::string operand(int form, int which, Comp const& x)
{
  return (which == 0 && form == RF) || (which == 1 && form == FR) ? str(x.n) : str(x);
}

void binary_case(Ctx& c, Api const& api)
{
  Src& s = c.src;
  int form = int(s.below(4));
  form = form == 3 ? int(FF) : form;
  int const op = int(s.below(6)); // 5: comparisons
  bool const compound = op < 5 && form != RF && s.below(3) == 2;
  // what is wrong: 0 left undefined, 1 right undefined, 2 both, 3 zero divisor
  int kind = int(s.below(4));
  if (kind == 3 && op != DIVIDES && op != MOD)
    kind = int(s.below(3));
  if (form == FR && kind != 3)
    kind = 0;
  if (form == RF && kind != 3)
    kind = 1;
  // compound assignment computes in the left representation
  RepInfo const cr = compound ? api.l : api.c;
  RepInfo const l = within(api.l, cr), r = within(api.r, cr);
  Comp a = kind == 0 || kind == 2 ? gen_undefined(s, l)
           : form == RF           ? gen_whole(s, l)
                                  : gen_comp(s, l);
  Comp b;
  if (kind == 3)
  {
    b = form == FR ? Comp {0, 1} : gen_comp(s, r);
    b.n = 0;
  }
  else
    b = kind == 1 || kind == 2 ? gen_undefined(s, r)
        : form == FR           ? gen_whole(s, r)
                               : gen_comp(s, r);
  // all values involved fit, in every order of evaluation
  auto fits = [&] {
    Fit f = fit_of(cr);
    f.in(a.n);
    f.in(a.d);
    f.in(b.n);
    f.in(b.d);
    i128 const x = f.mul(a.n, b.d), y = f.mul(b.n, a.d);
    f.add(x, y);
    if (cr.is_signed)
      f.sub(x, y);
    f.mul(a.n, b.n);
    f.mul(a.d, b.d);
    return f.ok;
  };
  for (int k = 0; !fits() && k < 300; ++k)
  {
    i128* p[] = {&a.n, &a.d, &b.n, &b.d};
    i128* big = p[0];
    for (auto q : p)
      if (mag(*q) > mag(*big))
        big = q;
    bool const den = big == &a.d || big == &b.d;
    *big /= 2;
    if (den && *big == 0)
      *big = 1;
  }
  if (!fits())
    c.discard();
  c.note([&](auto& o) {
    o << operand(form, 0, a) << " " << (op == 5 ? "<=>" : op_name(op))
      << (compound ? "=" : "") << " " << operand(form, 1, b);
  });
  c.label(op == 5 ? "comparison" : op_name(op));
  c.label(kind == 3 ? "zero divisor" : kind == 2 ? "both undefined" : "one undefined");
  c.label_if(compound, "compound");
  c.nontrivial();
  if (op == 5)
  {
    unsigned const got = api.cmp(form, a, b);
    c.check(got == 2u, [&](auto& o) {
      o << "comparisons (==,!=,<,<=,>,>=) of " << operand(form, 0, a) << " and "
        << operand(form, 1, b) << " gave bits " << got << ", expected only !=";
    });
    return;
  }
  Comp const got = api.bin(op, form, compound, a, b);
  c.check(got.d == 0, [&](auto& o) {
    o << operand(form, 0, a) << " " << op_name(op) << (compound ? "=" : "") << " "
      << operand(form, 1, b) << " gave " << str(got) << " instead of undefined";
  });
}

void unary_case(Ctx& c, Api const& api)
{
  Comp const a = gen_undefined(c.src, api.l);
  c.note([&](auto& o) { o << "unary operations on " << str(a); });
  std::string const bad = api.unary(a);
  c.check(bad.empty(), [&](auto& o) { o << bad << " of " << str(a) << " is wrong"; });
  c.nontrivial();
  c.label("unary");
}

template <typename L, typename R, typename P>
void add_pair(double weight)
{
  using C = std::common_type_t<L, R>;
  auto const ci = rep_info<C>();
  auto* api = new Api {P::info(),
                       rep_info<L>(),
                       rep_info<R>(),
                       ci,
                       std::is_same_v<L, R>,
                       &bin<L, R, typename P::ops>,
                       &compare<L, R, typename P::ops>,
                       &unary<L, typename P::ops>};
  pbt::add(api->p.name + " " + api->l.name + " " + api->r.name,
           weight,
           [api](Ctx& c) { binary_case(c, *api); });
  if (api->same_rep)
    pbt::add(api->p.name + " " + api->l.name + " unary",
             weight / 8,
             [api](Ctx& c) { unary_case(c, *api); });
}

PBT_REGISTER([] {
  pbt::rule()
    = "an operand with zero denominator and any numerator, or a zero divisor, "
      "in every position, with any other operand whose products fit; every "
      "case is non-trivial";
  using P = pol::at<PART>;
  add_pair<int, int, P>(4);
  add_pair<long, long, P>(3);
  add_pair<long long, long long, P>(2);
  add_pair<unsigned, unsigned, P>(2);
  add_pair<unsigned long, unsigned long, P>(1);
  add_pair<unsigned long long, unsigned long long, P>(1);
  add_pair<int, long, P>(1);
  add_pair<long, int, P>(1);
  add_pair<int, unsigned, P>(1);
  add_pair<unsigned, long, P>(1);
  add_pair<long long, unsigned long, P>(0.5);
  add_pair<unsigned long, long long, P>(0.5);
  add_pair<long, unsigned long, P>(0.5);
  add_pair<unsigned long long, int, P>(0.5);
});

} // namespace
