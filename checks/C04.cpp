// C04: output-reducing policies return canonical lowest terms.
#include "policies.hpp"

using namespace ref;

namespace {

struct Api {
  PolicyInfo p;
  RepInfo l, r, c;
  Comp (*bin)(int op, int form, bool compound, Comp const& a, Comp const& b);
  Comp (*negate)(Comp const& a);
};

template <typename A, typename B>
Comp apply(int op, A const& a, B const& b)
{
  switch (op)
  {
    case PLUS:
      return pol::comp(a + b);
    case MINUS:
      return pol::comp(a - b);
    case TIMES:
      return pol::comp(a * b);
    case DIVIDES:
      return pol::comp(a / b);
    default:
      return pol::comp(a % b);
  }
}

template <typename A, typename B>
Comp apply_assign(int op, A a, B const& b)
{
  switch (op)
  {
    case PLUS:
      a += b;
      break;
    case MINUS:
      a -= b;
      break;
    case TIMES:
      a *= b;
      break;
    case DIVIDES:
      a /= b;
      break;
    default:
      a %= b;
  }
  return pol::comp(a);
}

template <typename L, typename R, typename Ops>
Comp bin(int op, int form, bool compound, Comp const& a, Comp const& b)
{
  if (form == FF)
    return compound ? apply_assign(op, pol::make<L, Ops>(a), pol::make<R, Ops>(b))
                    : apply(op, pol::make<L, Ops>(a), pol::make<R, Ops>(b));
  if (form == FR)
    return compound ? apply_assign(op, pol::make<L, Ops>(a), static_cast<R>(b.n))
                    : apply(op, pol::make<L, Ops>(a), static_cast<R>(b.n));
  return apply(op, static_cast<L>(a.n), pol::make<R, Ops>(b));
}

template <typename L, typename Ops>
Comp negate(Comp const& a)
{
  return pol::comp(-pol::make<L, Ops>(a));
}

void canonical(Ctx& c, Api const& api, Comp const& r, std::string const& what)
{
  auto complain = [&](char const* why) {
    c.fail(what + " gave " + str(r) + ", which is not canonical: " + why);
  };
  if (r.d == 0)
  {
    if (r.n != 0)
      complain("undefined results are 0/0");
    return;
  }
  if (gcd(mag(r.n), mag(r.d)) != 1)
    complain("not in lowest terms");
  if (api.p.out_norm && r.d < 0)
    complain("negative denominator");
}

void binary_case(Ctx& c, Api const& api)
{
  Src& s = c.src;
  int const op = int(s.below(5));
  int form = int(s.below(4));
  form = form == 3 ? int(FF) : form;
  bool const compound = form != RF && s.below(3) == 2;
  RepInfo const cr = compound ? api.l : api.c;
  RepInfo const l = within(api.l, cr), r = within(api.r, cr);
  Comp a, b;
  bool const undef = s.one_in(24);
  if (undef)
  { // undefined results must be 0/0
    a = form == RF ? Comp {i128(s.below(20)), 1} : Comp {i128(s.below(20)), 0};
    b = form == RF ? Comp {i128(s.below(20)), 0}
                   : Comp {i128(s.below(20)), form == FR ? 1 : i128(s.below(20))};
    c.label("undefined operand");
  }
  else
  {
    bool const good = gen_pair(
      s, a, b, form, l, r, op == MINUS && !cr.is_signed, [&](auto& x, auto& y) {
        return working_fits(api.p, cr, op, form, x, y);
      });
    if (!good)
      c.discard();
  }
  auto what = [&] {
    return (form == RF ? str(a.n) : str(a)) + " " + op_name(op)
           + (compound ? "= " : " ") + (form == FR ? str(b.n) : str(b));
  };
  c.note([&](auto& o) { o << what(); });
  Comp const got = api.bin(op, form, compound, a, b);
  if (got.d == 0 ? got.n != 0
                 : gcd(mag(got.n), mag(got.d)) != 1 || (api.p.out_norm && got.d < 0))
    canonical(c, api, got, what());
  bool eok = false;
  Comp const want = exact(op, a, b, eok);
  if (eok && want.d == 0)
    c.check(same(got, Comp {0, 0}), [&](auto& o) {
      o << what() << " gave " << str(got) << ", undefined results are 0/0";
    });
  if (eok && want.d != 0 && want.n == 0)
    c.check(got.n == 0 && (got.d == 1 || (!api.p.out_norm && got.d == -1)), [&](auto& o) {
      o << what() << " gave " << str(got) << ", zero is 0/1";
    });
  c.label(op_name(op));
  c.label_if(compound, "compound");
  c.label_if(want.n == 0, "zero result");
  bool const work = a.d < 0 || b.d < 0 || gcd(mag(a.n), mag(a.d)) > 1
                    || gcd(mag(b.n), mag(b.d)) > 1 || gcd(mag(a.d), mag(b.d)) > 1
                    || gcd(mag(a.n), mag(b.d)) > 1 || gcd(mag(b.n), mag(a.d)) > 1;
  c.label_if(work, "something to reduce");
  c.nontrivial(work || want.n == 0);
}

void negate_case(Ctx& c, Api const& api)
{
  Comp a = gen_comp(c.src, api.l);
  if (c.src.one_in(16))
    a.d = 0;
  if (!api.l.is_signed && a.n != 0)
    a.n = 0;
  c.note([&](auto& o) { o << "-(" << str(a) << ")"; });
  Comp const got = api.negate(a);
  canonical(c, api, got, "-(" + str(a) + ")");
  if (a.n == 0 && a.d != 0)
    c.check(got.n == 0 && (got.d == 1 || (!api.p.out_norm && got.d == -1)),
            [&](auto& o) { o << "-(" << str(a) << ") gave " << str(got) << ", zero is 0/1"; });
  c.nontrivial(a.d < 0 || gcd(mag(a.n), mag(a.d)) != 1);
  c.label("negation");
}

template <typename L, typename R, typename P>
void add_pair(double weight)
{
  using C = std::common_type_t<L, R>;
  auto* api = new Api {P::info(),
                       rep_info<L>(),
                       rep_info<R>(),
                       rep_info<C>(),
                       &bin<L, R, typename P::ops>,
                       &negate<L, typename P::ops>};
  pbt::add(api->p.name + " " + api->l.name + " " + api->r.name,
           weight,
           [api](Ctx& c) { binary_case(c, *api); });
  if (std::is_same_v<L, R>)
    pbt::add(api->p.name + " " + api->l.name + " negate",
             weight / 8,
             [api](Ctx& c) { negate_case(c, *api); });
}

constexpr int policies[] = {0, 4, 6, 7, 9, 10, 11, 12};

PBT_REGISTER([] {
  pbt::rule()
    = "operand pairs under output-reducing policies, all operators, forms and "
      "compound assignments; the stored components of the result are observed; "
      "non-trivial: there is a common factor or sign to remove, or zero";
  using P = pol::at<policies[PART]>;
  add_pair<int, int, P>(4);
  add_pair<long, long, P>(3);
  add_pair<long long, long long, P>(2);
  add_pair<unsigned, unsigned, P>(2);
  add_pair<unsigned long, unsigned long, P>(1);
  add_pair<unsigned long long, unsigned long long, P>(1);
  add_pair<int, long, P>(1);
  add_pair<long, int, P>(1);
  add_pair<int, unsigned, P>(1);
  add_pair<long long, int, P>(1);
  add_pair<long long, unsigned long, P>(0.5);
  add_pair<unsigned long, long long, P>(0.5);
  add_pair<long, unsigned long, P>(0.5);
  add_pair<unsigned long long, int, P>(0.5);
});

} // namespace
