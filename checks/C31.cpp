// C31: a policy written by the user decides every operation of its fractions.
#include "policies.hpp"

#include <ieme/ieme.hpp>

using namespace ref;

namespace {

// What the policy below the building blocks saw during one operation.
struct Seen {
  int calls = 0;
  bool reduced = true;    // every fraction it was given was in lowest terms
  bool normalised = true; // ... with a non-negative denominator
  Comp result;
  int truth = -1;
};
thread_local Seen seen;

template <typename T>
Comp as_comp(T const& v)
{
  return {i128(v), 1};
}
template <typename T>
Comp as_comp(ieme::raw_fraction<T> const& v)
{
  return {i128(v.numerator), i128(v.denominator)};
}
template <typename T>
void look(T const&)
{
}
template <typename T>
void look(ieme::raw_fraction<T> const& v)
{
  Comp const c = as_comp(v);
  if (c.d == 0)
    return;
  seen.reduced = seen.reduced && gcd(mag(c.n), mag(c.d)) == 1;
  seen.normalised = seen.normalised && c.d > 0;
}

// Arithmetic modulo a prime: results are v/1, or 0/0.
template <long P>
struct Modular {
  static constexpr bool modular = true;
  static constexpr i128 inflate = 1;
  static i128 norm(i128 v) { return v % P < 0 ? v % P + P : v % P; }
  static i128 inverse(i128 v)
  {
    i128 r = 1;
    for (long e = P - 2; e; e >>= 1, v = v * v % P)
      if (e & 1)
        r = r * v % P;
    return r;
  }
  static Comp residue(Comp const& c)
  {
    i128 const d = norm(c.d);
    return d == 0 ? Comp {0, 0} : Comp {norm(c.n) * inverse(d) % P, 1};
  }
  static Comp negate(Comp a)
  {
    a = residue(a);
    return a.d == 0 ? a : Comp {norm(-a.n), 1};
  }
  static Comp arith(int op, Comp a, Comp b)
  {
    a = residue(a);
    b = residue(b);
    if (a.d == 0 || b.d == 0)
      return {0, 0};
    switch (op)
    {
      case PLUS:
        return {(a.n + b.n) % P, 1};
      case MINUS:
        return {norm(a.n - b.n), 1};
      case TIMES:
        return {a.n * b.n % P, 1};
      case DIVIDES:
        return b.n == 0 ? Comp {0, 0} : Comp {a.n * inverse(b.n) % P, 1};
      default: // the bits both have
        return {a.n & b.n, 1};
    }
  }
  static int order(Comp a, Comp b)
  {
    a = residue(a);
    b = residue(b);
    return a.d == 0 || b.d == 0 ? 2 : sgn(a.n - b.n);
  }
};

// Exact rational arithmetic in 128 bits; results are expanded by K, and the
// order is the opposite one if Reversed.
template <int K, bool Reversed = false>
struct Expanded {
  static constexpr bool modular = false;
  static constexpr i128 inflate = K;
  static Comp out(Comp const& c) { return c.d == 0 ? Comp {0, 0} : Comp {c.n * K, c.d * K}; }
  static Comp negate(Comp a) { return a.d == 0 ? a : out({-a.n, a.d}); }
  static Comp arith(int op, Comp const& a, Comp const& b)
  {
    bool ok = true;
    return out(exact(op, a, b, ok));
  }
  static int order(Comp const& a, Comp const& b)
  {
    if (a.d == 0 || b.d == 0)
      return 2;
    int const c = cmp(a, b);
    return Reversed ? -c : c;
  }
};

bool holds(int which, int order)
{
  switch (which)
  {
    case 0:
      return order == 0;
    case 1:
      return order != 0;
    case 2:
      return order == -1;
    case 3:
      return order == -1 || order == 0;
    case 4:
      return order == 1;
    default:
      return order == 1 || order == 0;
  }
}

// The policy as a user would write it: the shape of ops::safe.
template <typename Model>
class Own {

  template <typename Rep>
  static ieme::raw_fraction<Rep> give(Comp const& c) noexcept
  {
    seen.result = c;
    return {static_cast<Rep>(c.n), static_cast<Rep>(c.d)};
  }
  template <typename Rep, typename A, typename B>
  static ieme::raw_fraction<Rep> arith(int op, A const& a, B const& b) noexcept
  {
    ++seen.calls;
    look(a);
    look(b);
    return give<Rep>(Model::arith(op, as_comp(a), as_comp(b)));
  }
  template <typename A, typename B>
  static bool compare(int which, A const& a, B const& b) noexcept
  {
    ++seen.calls;
    look(a);
    look(b);
    return holds(which, Model::order(as_comp(a), as_comp(b)));
  }

public:
  ~Own() = delete;

  template <typename Rep>
  static constexpr ieme::raw_fraction<Rep> negate(ieme::raw_fraction<Rep> const& v) noexcept
  {
    ++seen.calls;
    look(v);
    return give<Rep>(Model::negate(as_comp(v)));
  }
#define ARITH(name, op)                                                       \
  template <typename Rep>                                                     \
  static constexpr ieme::raw_fraction<Rep> name(                              \
    ieme::raw_fraction<Rep> const& a, ieme::raw_fraction<Rep> const& b) noexcept \
  {                                                                           \
    return arith<Rep>(op, a, b);                                              \
  }                                                                           \
  template <typename Rep>                                                     \
  static constexpr ieme::raw_fraction<Rep> name(ieme::raw_fraction<Rep> const& a, \
                                                Rep const& b) noexcept        \
  {                                                                           \
    return arith<Rep>(op, a, b);                                              \
  }                                                                           \
  template <typename Rep>                                                     \
  static constexpr ieme::raw_fraction<Rep> name(                              \
    Rep const& a, ieme::raw_fraction<Rep> const& b) noexcept                  \
  {                                                                           \
    return arith<Rep>(op, a, b);                                              \
  }
#define COMPARE(name, which)                                                  \
  template <typename Rep>                                                     \
  static constexpr bool name(ieme::raw_fraction<Rep> const& a,                \
                             ieme::raw_fraction<Rep> const& b) noexcept       \
  {                                                                           \
    return compare(which, a, b);                                              \
  }                                                                           \
  template <typename Rep>                                                     \
  static constexpr bool name(ieme::raw_fraction<Rep> const& a, Rep const& b) noexcept \
  {                                                                           \
    return compare(which, a, b);                                              \
  }                                                                           \
  template <typename Rep>                                                     \
  static constexpr bool name(Rep const& a, ieme::raw_fraction<Rep> const& b) noexcept \
  {                                                                           \
    return compare(which, a, b);                                              \
  }
  ARITH(plus, PLUS)
  ARITH(minus, MINUS)
  ARITH(multiplies, TIMES)
  ARITH(divides, DIVIDES)
  ARITH(modulus, MOD)
  COMPARE(equal_to, 0)
  COMPARE(not_equal_to, 1)
  COMPARE(less, 2)
  COMPARE(less_equal, 3)
  COMPARE(greater, 4)
  COMPARE(greater_equal, 5)
#undef ARITH
#undef COMPARE
};

char const* compare_name(int w)
{
  static char const* n[] = {"==", "!=", "<", "<=", ">", ">="};
  return n[w];
}

struct Building {
  char const* name;
  bool in, in_norm, out, out_norm;
};

template <int I, typename Base>
struct Built;
namespace io = ieme::ops;
using ieme::reduce_mode;
#define BUILT(i, ...)                                                         \
  template <typename Base>                                                    \
  struct Built<i, Base> {                                                     \
    using ops = __VA_ARGS__;                                                  \
    static Building info();                                                   \
  };                                                                          \
  template <typename Base>                                                    \
  Building Built<i, Base>::info()
BUILT(0, Base) { return {"%", false, false, false, false}; }
BUILT(1, io::reduced_input<Base>) { return {"in(%)", true, false, false, false}; }
BUILT(2, io::reduced_output<Base>) { return {"out(%)", false, false, true, true}; }
BUILT(3, io::reduced_input<io::reduced_output<Base>>) { return {"in(out(%))", true, false, true, true}; }
BUILT(4, io::reduced_output<io::reduced_input<Base, reduce_mode::normalize_signs>, reduce_mode::ignore_signs>)
{
  return {"out_ign(in_norm(%))", true, true, true, false};
}
BUILT(5, io::reduced_input<Base, reduce_mode::normalize_signs>) { return {"in_norm(%)", true, true, false, false}; }

struct Api {
  std::string name;
  Building how;
  bool modular;
  i128 inflate;
  RepInfo l, r, c;
  Comp (*arith)(int op, int form, bool compound, Comp const& a, Comp const& b);
  bool (*compare)(int which, int form, Comp const& a, Comp const& b);
  Comp (*negate)(Comp const& a);
  Comp (*model)(int op, Comp const& a, Comp const& b);
  int (*order)(Comp const& a, Comp const& b);
  Comp (*minus)(Comp const& a);
};

template <typename A, typename B>
Comp apply(int op, A const& a, B const& b)
{
  switch (op)
  {
    case PLUS:
      return pol::comp(a + b);
    case MINUS:
      return pol::comp(a - b);
    case TIMES:
      return pol::comp(a * b);
    case DIVIDES:
      return pol::comp(a / b);
    default:
      return pol::comp(a % b);
  }
}
template <typename A, typename B>
Comp apply_assign(int op, A a, B const& b)
{
  A* r = nullptr;
  switch (op)
  {
    case PLUS:
      r = &(a += b);
      break;
    case MINUS:
      r = &(a -= b);
      break;
    case TIMES:
      r = &(a *= b);
      break;
    case DIVIDES:
      r = &(a /= b);
      break;
    default:
      r = &(a %= b);
  }
  return r == &a ? pol::comp(a) : Comp {-1, -1};
}
template <typename L, typename R, typename Ops>
Comp arith(int op, int form, bool compound, Comp const& a, Comp const& b)
{
  if (form == FF)
    return compound ? apply_assign(op, pol::make<L, Ops>(a), pol::make<R, Ops>(b))
                    : apply(op, pol::make<L, Ops>(a), pol::make<R, Ops>(b));
  if (form == FR)
    return compound ? apply_assign(op, pol::make<L, Ops>(a), static_cast<R>(b.n))
                    : apply(op, pol::make<L, Ops>(a), static_cast<R>(b.n));
  return apply(op, static_cast<L>(a.n), pol::make<R, Ops>(b));
}
template <typename A, typename B>
bool relate(int which, A const& a, B const& b)
{
  switch (which)
  {
    case 0:
      return a == b;
    case 1:
      return a != b;
    case 2:
      return a < b;
    case 3:
      return a <= b;
    case 4:
      return a > b;
    default:
      return a >= b;
  }
}
template <typename L, typename R, typename Ops>
bool compare(int which, int form, Comp const& a, Comp const& b)
{
  if (form == FF)
    return relate(which, pol::make<L, Ops>(a), pol::make<R, Ops>(b));
  if (form == FR)
    return relate(which, pol::make<L, Ops>(a), static_cast<R>(b.n));
  return relate(which, static_cast<L>(a.n), pol::make<R, Ops>(b));
}
template <typename L, typename Ops>
Comp negate(Comp const& a)
{
  return pol::comp(-pol::make<L, Ops>(a));
}

// What a policy with these blocks gives; a and b as the operands are stored.
Comp shaped(Api const& api, Comp a) { return api.how.in ? lowest(a) : a; }

void judge(Ctx& c, Api const& api, Comp const& got, Comp want, std::string const& what)
{
  if (seen.calls == 0)
    c.fail(what + " never reached the policy");
  if (api.how.in && !seen.reduced)
    c.fail(what + " handed the policy an operand that was not reduced");
  if (api.how.in_norm && !seen.normalised)
    c.fail(what + " handed the policy an operand with a negative denominator");
  if (want.d == 0)
  {
    if (got.d != 0)
      c.fail(what + " gave " + str(got) + ", the policy an undefined value");
    return;
  }
  if (got.d == 0 || cmp(got, want) != 0)
    c.fail(what + " gave " + str(got) + ", the policy gives " + str(want));
  if (!api.how.out && !same(got, seen.result))
    c.fail(what + " gave " + str(got) + ", the policy gave " + str(seen.result));
  if (api.how.out && (gcd(mag(got.n), mag(got.d)) != 1 || (api.how.out_norm && got.d < 0)))
    c.fail(what + " gave " + str(got) + ", which is not reduced");
}

Comp operand(Src& s, RepInfo const& r, bool whole, Api const& api)
{
  Comp a = gen_comp(s, r);
  if (!api.modular)
  { // room for the expanded results
    i128 const m = (i128(1) << (r.digits / 2 - 4)) - 1;
    a.n = a.n % (m + 1);
    a.d = a.d % (m + 1);
    if (a.d == 0)
      a.d = 1;
  }
  if (whole)
    a.d = 1;
  else if (s.one_in(20))
    a.d = 0;
  return a;
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  int const kind = int(s.below(10));
  int form = int(s.below(4));
  form = form == 3 ? int(FF) : form;
  bool const compound = kind < 6 && form != RF && s.below(3) == 2;
  RepInfo const cr = compound ? api.l : api.c;
  RepInfo l = within(api.l, cr), r = within(api.r, cr);
  Comp const a = operand(s, l, form == RF, api);
  Comp b = operand(s, r, form == FR, api);
  if (s.one_in(8) && r.fits(a.n) && (form == FR || r.fits(a.d)))
    b = form == FR ? Comp {a.n, 1} : a;
  std::string const left = form == RF ? str(a.n) : str(a), right = form == FR ? str(b.n) : str(b);
  Comp const x = form == RF ? a : shaped(api, a), y = form == FR ? b : shaped(api, b);
  seen = {};
  if (kind < 6)
  {
    int const op = int(s.below(5));
    std::string const what = left + " " + op_name(op) + (compound ? "= " : " ") + right;
    c.note([&](auto& o) { o << what; });
    Comp const want = api.model(op, x, y);
    if (!cr.fits(want.n) || !cr.fits(want.d))
      c.discard();
    Comp const got = api.arith(op, form, compound, a, b);
    judge(c, api, got, want, what);
    c.label(op_name(op));
    c.label_if(compound, "compound");
  }
  else if (kind < 9)
  {
    int const which = int(s.below(6));
    std::string const what = left + " " + compare_name(which) + " " + right;
    c.note([&](auto& o) { o << what; });
    bool const want = holds(which, api.order(x, y));
    bool const got = api.compare(which, form, a, b);
    if (seen.calls == 0)
      c.fail(what + " never reached the policy");
    if (api.how.in && !seen.reduced)
      c.fail(what + " handed the policy an operand that was not reduced");
    if (api.how.in_norm && !seen.normalised)
      c.fail(what + " handed the policy an operand with a negative denominator");
    if (got != want)
      c.fail(what + " is " + (got ? "true" : "false") + ", not so for the policy");
    c.label(compare_name(which));
  }
  else
  {
    Comp f = operand(s, api.l, false, api);
    std::string const what = "-(" + str(f) + ")";
    c.note([&](auto& o) { o << what; });
    Comp const want = api.minus(shaped(api, f));
    if (!api.l.fits(want.n) || !api.l.fits(want.d))
      c.discard();
    judge(c, api, api.negate(f), want, what);
    c.label("negation");
  }
  c.label_if(a.d == 0 || b.d == 0, "undefined operand");
  c.nontrivial(a.n != 0 && b.n != 0 && (a.d != 1 || b.d != 1));
}

template <typename L, typename R, typename Model, int B>
void add(double weight)
{
  using How = Built<B, Own<Model>>;
  using Ops = typename How::ops;
  auto* api = new Api {"",
                       How::info(),
                       Model::modular,
                       Model::inflate,
                       rep_info<L>(),
                       rep_info<R>(),
                       rep_info<std::common_type_t<L, R>>(),
                       &arith<L, R, Ops>,
                       &compare<L, R, Ops>,
                       &negate<L, Ops>,
                       [](int op, Comp const& a, Comp const& b) { return Model::arith(op, a, b); },
                       [](Comp const& a, Comp const& b) { return Model::order(a, b); },
                       [](Comp const& a) { return Model::negate(a); }};
  std::string name = api->how.name;
  std::string const base = Model::modular ? "modular" : "expanded" + std::to_string(int(Model::inflate));
  api->name = name.replace(name.find('%'), 1, base);
  pbt::add(api->name + " " + api->l.name + " " + api->r.name, weight, [api](Ctx& c) { body(c, *api); });
}

// The rest of the library with fractions of such a policy.
template <typename R, typename Ops>
void rest(Ctx& c)
{
  using Std = ieme::ops::safe_reduced_io;
  using F = ieme::fraction<R, Ops>;
  using G = ieme::fraction<R, Std>;
  Src& s = c.src;
  RepInfo const r = rep_info<R>();
  auto component = [&](bool sign) { return R(gen_mag(s, i128(1) << (r.digits / 4))) * (sign && r.is_signed && s.below(2) ? R(-1) : R(1)); };
  R const n = component(true), m = component(true);
  R d = component(true), e = component(true);
  d = d == 0 ? R(1) : d;
  e = e == 0 ? R(1) : e;
  F const f(n, d), h(m, e);
  G const g(n, d), k(m, e);
  std::string what;
  auto alike = [&](auto const& x, auto const& y, char const* name) {
    Comp const p = pol::comp(x), q = pol::comp(y);
    c.check(p.d == 0 ? q.d == 0 : q.d != 0 && cmp(p, q) == 0, [&](auto& o) {
      o << name << " of " << str(Comp {n, d}) << " gave " << str(p) << " with an own policy, " << str(q)
        << " with the default one";
    });
  };
  auto equal = [&](auto const& x, auto const& y, char const* name) {
    c.check(x == y, [&](auto& o) { o << name << " of " << str(Comp {n, d}) << " differs with an own policy"; });
  };
  int const op = int(s.below(28));
  c.note([&](auto& o) { o << "operation " << op << " on " << str(Comp {n, d}) << " and " << str(Comp {m, e}); });
  seen = {};
  switch (op)
  {
    case 0:
      alike(ieme::reduce(f), ieme::reduce(g), "reduce");
      break;
    case 1:
      alike(ieme::reciprocal(f), ieme::reciprocal(g), "reciprocal");
      break;
    case 2:
      alike(ieme::abs(f), ieme::abs(g), "abs");
      break;
    case 3:
      equal(ieme::trunc(f), ieme::trunc(g), "trunc");
      break;
    case 4:
      equal(ieme::floor(f), ieme::floor(g), "floor");
      break;
    case 5:
      equal(ieme::ceil(f), ieme::ceil(g), "ceil");
      break;
    case 6:
      equal(ieme::round(f), ieme::round(g), "round");
      break;
    case 7:
      equal(ieme::to_double(f), ieme::to_double(g), "to_double");
      break;
    case 8:
      equal(ieme::hash(f), ieme::hash(g), "hash");
      break;
    case 9:
      equal(ieme::is_integer(f), ieme::is_integer(g), "is_integer");
      equal(ieme::is_proper(f), ieme::is_proper(g), "is_proper");
      equal(ieme::is_unit_fraction(f), ieme::is_unit_fraction(g), "is_unit_fraction");
      equal(ieme::is_negative(f), ieme::is_negative(g), "is_negative");
      break;
    case 10:
      alike(ieme::trunc_redenominate(f, e), ieme::trunc_redenominate(g, e), "trunc_redenominate");
      break;
    case 11:
      alike(ieme::floor_redenominate(f, e), ieme::floor_redenominate(g, e), "floor_redenominate");
      break;
    case 12:
      alike(ieme::ceil_redenominate(f, e), ieme::ceil_redenominate(g, e), "ceil_redenominate");
      break;
    case 13:
      alike(F(g), G(f), "conversion");
      break;
    case 14:
    {
      std::ostringstream o, p;
      o << f;
      p << g;
      equal(o.str(), p.str(), "output");
      break;
    }
    case 15:
    {
      int const x = int(s.below(15)) - 7;
      alike(ieme::pow2<R, Ops>(x), ieme::pow2<R, Std>(x), "pow2");
      alike(ieme::pow<R, Ops>(R(3), x), ieme::pow<R, Std>(R(3), x), "pow");
      break;
    }
    case 16:
    case 17:
    case 18:
    { // mixed numbers
      using M = ieme::mixed_number<R, R, Ops>;
      using N = ieme::mixed_number<R, R, Std>;
      if (r.is_signed == false && (n / d < 0 || m / e < 0))
        c.discard();
      if (op == 16)
        alike(M(f).as_fraction(), N(g).as_fraction(), "mixed number");
      else if (op == 17)
        alike((M(f) + M(h)).as_fraction(), (N(g) + N(k)).as_fraction(), "mixed sum");
      else
        alike((M(f) + h).as_fraction(), (N(g) + k).as_fraction(), "mixed sum");
      break;
    }
    case 19:
    case 20:
    case 21:
    { // durations
      using D = ieme::chrono::duration<R, std::ratio<2, 3>, Ops>;
      using E = ieme::chrono::duration<R, std::ratio<2, 3>, Std>;
      if (op == 19)
        alike((D(f) + D(h)).count(), (E(g) + E(k)).count(), "duration sum");
      else if (op == 20)
        equal(D(f) < D(h), E(g) < E(k), "duration order");
      else
        alike((D(f) * F(h)).count(), (E(g) * G(k)).count(), "duration multiple");
      c.check(seen.calls > 0, [&](auto& o) { o << "operation " << op << " on durations never reached the policy"; });
      break;
    }
    case 22:
      alike(ieme::to_fraction<R, Ops>(double(n)), ieme::to_fraction<R, Std>(double(n)), "to_fraction");
      break;
    case 23:
    {
      static char const* const texts[] = {"0.25", "3", "1e2", "0x1.8p1", "12.5e-1", ".5", "junk", "1e", "0"};
      char const* const t = texts[s.below(9)];
      alike(ieme::floating_point_string_to_fraction<R, Ops>(t), ieme::floating_point_string_to_fraction<R, Std>(t), t);
      break;
    }
    case 24:
      alike(ieme::limits<F>::max(), ieme::limits<G>::max(), "limits");
      alike(ieme::limits<F>::min(), ieme::limits<G>::min(), "limits");
      alike(std::numeric_limits<F>::epsilon(), std::numeric_limits<G>::epsilon(), "limits");
      alike(ieme::limits<F>::undefined(), ieme::limits<G>::undefined(), "limits");
      break;
    case 25:
    { // durations of other periods
      using A = ieme::chrono::duration<R, std::ratio<1>, Ops>;
      using B = ieme::chrono::duration<R, std::ratio<3>, Ops>;
      using P = ieme::chrono::duration<R, std::ratio<1>, Std>;
      using Q = ieme::chrono::duration<R, std::ratio<3>, Std>;
      alike((A(f) + B(h)).count(), (P(g) + Q(k)).count(), "duration sum");
      alike(B(A(f)).count(), Q(P(g)).count(), "duration conversion");
      equal(A(f) >= B(h), P(g) >= Q(k), "duration order");
      break;
    }
    case 26:
      equal(are_identical(f, h), are_identical(g, k), "are_identical");
      equal(are_different(f, h), are_different(g, k), "are_different");
      equal(is_reduced(f), is_reduced(g), "is_reduced");
      equal(is_improper(f), is_improper(g), "is_improper");
      equal(is_zero(f), is_zero(g), "is_zero");
      break;
    default:
      alike(ieme::normalize_signs(f), ieme::normalize_signs(g), "normalize_signs");
  }
  c.label("other operations");
  c.nontrivial(n != 0 && d != 1);
}

template <typename R, typename Ops>
void add_rest(std::string const& name)
{
  pbt::add("other operations of " + name + " " + rep_info<R>().name, 0.4, [](Ctx& c) { rest<R, Ops>(c); });
}

template <typename Model, int B>
void add_all(double w)
{
  add<int, int, Model, B>(3 * w);
  add<long, long, Model, B>(2 * w);
  add<unsigned long long, unsigned long long, Model, B>(1 * w);
  add<int, long, Model, B>(1 * w);
  add<long long, int, Model, B>(1 * w);
  add<int, unsigned, Model, B>(1 * w);
  add<unsigned long, int, Model, B>(1 * w);
  add<long long, unsigned long, Model, B>(1 * w);
  add<unsigned long, long long, Model, B>(1 * w);
}

PBT_REGISTER([] {
  pbt::rule()
    = "operands of fractions whose policy is written in the check (arithmetic modulo a prime, exact arithmetic with "
      "expanded results, a reversed order), bare or inside reduced_input and reduced_output, with every operator and "
      "form; non-trivial: both operands non-zero and not both whole";
  add_all<Modular<97>, PART>(1);
  add_all<Modular<2147483647>, PART>(0.5);
  add_all<Expanded<6, true>, PART>(1);
  add_all<Expanded<1>, PART>(0.5);
  using Plain = typename Built<PART, Own<Expanded<1>>>::ops;
  using Thick = typename Built<PART, Own<Expanded<2>>>::ops;
  add_rest<int, Plain>("plain");
  add_rest<long, Plain>("plain");
  add_rest<long long, Thick>("expanded");
  add_rest<int, Thick>("expanded");
});

} // namespace
