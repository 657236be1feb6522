// C05: safe policies are exact whenever the least common denominator fits.
#include "policies.hpp"

using namespace ref;

namespace {

struct Api {
  PolicyInfo p;
  RepInfo l, r, c;
  Comp (*bin)(int op, bool compound, Comp const& a, Comp const& b);
  unsigned (*cmp)(Comp const& a, Comp const& b);
};

template <typename L, typename R, typename Ops>
Comp bin(int op, bool compound, Comp const& a, Comp const& b)
{
  auto x = pol::make<L, Ops>(a);
  auto const y = pol::make<R, Ops>(b);
  if (compound)
  {
    switch (op)
    {
      case PLUS:
        x += y;
        break;
      case MINUS:
        x -= y;
        break;
      default:
        x %= y;
    }
    return pol::comp(x);
  }
  switch (op)
  {
    case PLUS:
      return pol::comp(x + y);
    case MINUS:
      return pol::comp(x - y);
    default:
      return pol::comp(x % y);
  }
}

template <typename L, typename R, typename Ops>
unsigned compare(Comp const& p, Comp const& q)
{
  auto const a = pol::make<L, Ops>(p);
  auto const b = pol::make<R, Ops>(q);
  return unsigned(bool(a == b)) | unsigned(bool(a != b)) << 1
         | unsigned(bool(a < b)) << 2 | unsigned(bool(a <= b)) << 3
         | unsigned(bool(a > b)) << 4 | unsigned(bool(a >= b)) << 5;
}

char const* const names[] = {"==", "!=", "<", "<=", ">", ">="};

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  static int const ops[] = {PLUS, MINUS, MOD, 5, 5};
  int const op = ops[s.below(5)];
  bool const compound = op < 5 && s.below(4) == 3;
  RepInfo const cr = compound ? api.l : api.c;
  RepInfo const l = within(api.l, cr), r = within(api.r, cr);
  i128 const max = l.max < r.max ? l.max : r.max;
  // denominators g*x and g*y, g large
  i128 x = 1 + gen_mag(s, 40), y = 1 + gen_mag(s, 40);
  if (s.below(3) == 2)
  {
    i128 const root = i128(isqrt(u128(max))) / 64;
    x = 1 + gen_mag(s, root);
    y = 1 + gen_mag(s, root);
  }
  i128 const xy = (x > y ? x : y);
  i128 g = 0;
  // largest g with g*x*y fitting, or a fraction of it
  i128 const room = x * y <= max ? max / (x * y) : 1;
  switch (s.below(4))
  {
    case 0:
      g = room;
      break;
    case 1:
      g = room - gen_mag(s, room / 2 > 0 ? room / 2 : 0);
      break;
    default:
      g = 1 + gen_mag(s, room - 1);
  }
  if (g < 1)
    g = 1;
  (void)xy;
  Comp a, b;
  a.d = g * x;
  b.d = g * y;
  if (a.d > l.max || b.d > r.max)
    c.discard();
  // numerators whose scaled values fit
  a.n = gen_mag(s, max / y > 0 ? max / y : 0);
  b.n = gen_mag(s, max / x > 0 ? max / x : 0);
  if (s.below(3) == 2 && x && y)
  { // close or equal values: a.n/x ~ b.n/y
    i128 const k = gen_mag(s, max / (x * y) > 1 ? max / (x * y) : 1);
    a.n = k * x + i128(s.below(3)) - 1;
    b.n = k * y + i128(s.below(3)) - 1;
    if (a.n < 0)
      a.n = 0;
    if (b.n < 0)
      b.n = 0;
  }
  if (cr.is_signed)
  {
    int const signs = int(s.below(16));
    if (signs & 1)
      a.n = -a.n;
    if (signs & 2)
      b.n = -b.n;
    if ((signs & 12) == 4)
      a.d = -a.d;
    if ((signs & 12) == 8)
      b.d = -b.d;
  }
  if (op == MOD && b.n == 0)
    b.n = 1;
  if (op == MINUS && !cr.is_signed)
    make_ge(a, b, FF, l, r);
  if (api.p.in_reduce && s.coin())
  { // large common factors inside each operand
    i128 const ma = l.max / i128(mag(a.n) > mag(a.d) ? mag(a.n) : mag(a.d));
    i128 const mb = r.max / i128(mag(b.n) > mag(b.d) ? mag(b.n) : mag(b.d));
    i128 const ka = ma >= 1 ? (s.coin() ? ma : 1 + gen_mag(s, ma - 1)) : 1;
    i128 const kb = mb >= 1 ? (s.coin() ? mb : 1 + gen_mag(s, mb - 1)) : 1;
    a.n *= ka;
    a.d *= ka;
    b.n *= kb;
    b.d *= kb;
    c.label_if(ka > 1 || kb > 1, "common factor inside an operand");
  }
  auto ok = [&] {
    return l.fits(a.n) && r.fits(b.n) && l.fits(a.d) && r.fits(b.d)
           && (op == 5 ? compare_fits(api.p, cr, FF, a, b)
                       : working_fits(api.p, cr, op, FF, a, b));
  };
  for (int k = 0; !ok() && k < 140; ++k)
    (mag(a.n) > mag(b.n) ? a.n : b.n) /= 2;
  if (op == MOD && b.n == 0)
    b.n = 1;
  if (!ok())
    c.discard();
  c.note([&](auto& o) {
    o << str(a) << " " << (op == 5 ? "<=>" : op_name(op)) << (compound ? "= " : " ")
      << str(b);
  });
  Fit prod = fit_of(cr);
  prod.mul(a.d, b.d);
  prod.mul(a.n, b.d);
  prod.mul(b.n, a.d);
  c.nontrivial(!prod.ok);
  c.label_if(!prod.ok, "products do not fit");
  c.label(op == 5 ? "comparison" : op_name(op));
  if (op == 5)
  {
    int const k = cmp(a, b);
    unsigned const want = unsigned(k == 0) | unsigned(k != 0) << 1
                          | unsigned(k < 0) << 2 | unsigned(k <= 0) << 3
                          | unsigned(k > 0) << 4 | unsigned(k >= 0) << 5;
    unsigned const got = api.cmp(a, b);
    for (int i = 0; i < 6; ++i)
      c.check((got >> i & 1) == (want >> i & 1), [&](auto& o) {
        o << str(a) << " " << names[i] << " " << str(b) << " gave " << (got >> i & 1);
      });
    return;
  }
  bool eok = false;
  Comp const want = exact(op, a, b, eok);
  if (!eok)
    c.discard();
  Comp const got = api.bin(op, compound, a, b);
  c.check(equal(got, want), [&](auto& o) {
    o << str(a) << " " << op_name(op) << (compound ? "= " : " ") << str(b) << " gave "
      << str(got) << ", expected " << str(want);
  });
}

template <typename L, typename R, typename P>
void add_pair(double weight)
{
  using C = std::common_type_t<L, R>;
  auto* api = new Api {P::info(),
                       rep_info<L>(),
                       rep_info<R>(),
                       rep_info<C>(),
                       &bin<L, R, typename P::ops>,
                       &compare<L, R, typename P::ops>};
  pbt::add(api->p.name + " " + api->l.name + " " + api->r.name,
           weight,
           [api](Ctx& c) { body(c, *api); });
}

constexpr int policies[] = {0, 1, 3, 4, 9, 11};

PBT_REGISTER([] {
  pbt::rule()
    = "denominators g*x and g*y with g up to the largest that lets g*x*y fit, "
      "numerators up to the largest whose scaled value fits, close values, "
      "large factors inside operands of input-reducing policies; non-trivial: "
      "a product of a denominator with the other component does not fit";
  using P = pol::at<policies[PART]>;
  add_pair<int, int, P>(4);
  add_pair<long, long, P>(4);
  add_pair<long long, long long, P>(2);
  add_pair<unsigned, unsigned, P>(2);
  add_pair<unsigned long, unsigned long, P>(2);
  add_pair<unsigned long long, unsigned long long, P>(1);
  add_pair<int, long, P>(1);
  add_pair<long, int, P>(1);
  add_pair<int, unsigned, P>(1);
  add_pair<unsigned, long, P>(1);
  add_pair<long long, long, P>(1);
  add_pair<long long, unsigned long, P>(0.5);
  add_pair<unsigned long, long long, P>(0.5);
  add_pair<long, unsigned long, P>(0.5);
  add_pair<unsigned long long, int, P>(0.5);
});

} // namespace
