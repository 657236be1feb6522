// C30: values are plain and operations allocate nothing and throw nothing.
#include "policies.hpp"

#include <ieme/ieme.hpp>

#include <array>
#include <cstring>

using namespace ref;

extern "C" unsigned long ieme_check_allocations();

#if PART == 0

#include <cstddef>

// Every allocation of the program, the standard library's included, is counted.
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
static thread_local unsigned long allocations;
unsigned long ieme_check_allocations() { return allocations; }
void* malloc(std::size_t n)
{
  ++allocations;
  return __libc_malloc(n);
}
void* calloc(std::size_t n, std::size_t m)
{
  ++allocations;
  return __libc_calloc(n, m);
}
void* realloc(void* p, std::size_t n)
{
  ++allocations;
  return __libc_realloc(p, n);
}
}

#endif

namespace {

struct Api {
  std::string name;
  RepInfo r;
  int count;
  // What the type breaks at compile time, or null.
  char const* (*shape)();
  // Runs an operation: its name if it allocated, or null.
  // (g: any components, for operations that are in range for all)
  char const* (*run)(int op, Comp const& a, Comp const& b, Comp const& g, i128 w, int e, double d,
                     std::string_view text);
  // A fraction copied by bytes; false if the copy is another value.
  bool (*bytes)(Comp const& a, Comp const& b, i128 w);
};

template <typename T>
struct Clock {
  using rep = T;
  using period = std::ratio<1, 4>;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<Clock>;
  static constexpr bool is_steady = false;
  static inline thread_local T reading = 0;
  static time_point now() noexcept { return time_point {duration {reading}}; }
};

template <typename X>
inline void sink(X const& x)
{
  asm volatile("" : : "r"(&x) : "memory");
}

template <typename W, typename F>
struct Parts {
  W w;
  F n, d;
};

template <typename X>
constexpr bool plain = std::is_trivially_copyable_v<X>&& std::is_trivially_destructible_v<X>&&
  std::is_standard_layout_v<X>&& std::is_nothrow_copy_constructible_v<X>&&
  std::is_nothrow_move_constructible_v<X>&& std::is_nothrow_copy_assignable_v<X>&&
  std::is_nothrow_move_assignable_v<X>&& std::is_nothrow_swappable_v<X>;

template <typename T, typename O>
char const* shape()
{
  using F = ieme::fraction<T, O>;
  using R = ieme::raw_fraction<T>;
  using M = ieme::mixed_number<T, T, O>;
  using N = ieme::mixed_number<long long, T, O>;
  using D = ieme::chrono::duration<T, std::ratio<1, 30>, O>;
  using P = ieme::chrono::time_point<std::chrono::system_clock, T, std::ratio<1>, O>;
  using G = std::conditional_t<std::is_same_v<T, long>, ieme::fraction<int, O>, ieme::fraction<long, O>>;
  using H = ieme::fraction<T, std::conditional_t<std::is_same_v<O, ieme::ops::fast>, ieme::ops::safe, ieme::ops::fast>>;
  using L = ieme::limits<F>;
  using S = std::numeric_limits<F>;
  using W = ieme::chrono::clock_wrapper<Clock<T>, std::ratio<1, 2>, O>;
  using U = ieme::literals::denominator_literal<false, O>;
  namespace mu = ieme::math_utilities;
  using namespace ieme;
#define TYPE(X, size)                                                         \
  if (!plain<X>)                                                              \
    return #X " is no plain type";                                            \
  if (sizeof(X) > (size))                                                     \
    return #X " is larger than its components";
  TYPE(F, 2 * sizeof(T))
  TYPE(R, 2 * sizeof(T))
  TYPE(M, (sizeof(Parts<T, T>)))
  TYPE(N, (sizeof(Parts<long long, T>)))
  TYPE(D, 2 * sizeof(T))
  TYPE(P, 2 * sizeof(T))
#undef TYPE
#define NOEXCEPT(...)                                                         \
  if (!noexcept(__VA_ARGS__))                                                 \
    return #__VA_ARGS__ " may throw";
#define V(X) std::declval<X const&>()
#define E(X) std::declval<X&>()
  NOEXCEPT(F())
  NOEXCEPT(R())
  NOEXCEPT(R(V(T), V(T)))
  NOEXCEPT(R(V(ieme::raw_fraction<short>)))
  NOEXCEPT(M())
  NOEXCEPT(F(V(T)))
  NOEXCEPT(F(V(T), V(T)))
  NOEXCEPT(F(V(R)))
  NOEXCEPT(F(V(G)))
  NOEXCEPT(F(V(H)))
  NOEXCEPT(F(std::ratio<1, 2>()))
  NOEXCEPT(M(V(T), V(F)))
  NOEXCEPT(M(V(F)))
  NOEXCEPT(M(V(H)))
  NOEXCEPT(N(V(G)))
  NOEXCEPT(M(V(T)))
  NOEXCEPT(V(F).numerator())
  NOEXCEPT(E(F).numerator())
  NOEXCEPT(V(F).denominator())
  NOEXCEPT(E(F).denominator())
  NOEXCEPT(V(F).num())
  NOEXCEPT(E(F).num())
  NOEXCEPT(V(F).den())
  NOEXCEPT(E(F).den())
  NOEXCEPT(V(F).raw())
  NOEXCEPT(E(F).raw())
  NOEXCEPT(E(F) = V(F))
  NOEXCEPT(E(F) = V(T))
  NOEXCEPT(E(F) = V(G))
  NOEXCEPT(+V(F))
  NOEXCEPT(-V(F))
#define BINARY(op)                                                            \
  NOEXCEPT(V(F) op V(F))                                                      \
  NOEXCEPT(V(F) op V(G))                                                      \
  NOEXCEPT(V(G) op V(F))                                                      \
  NOEXCEPT(V(F) op V(T))                                                      \
  NOEXCEPT(V(T) op V(F))                                                      \
  NOEXCEPT(V(F) op V(long long))                                              \
  NOEXCEPT(V(int) op V(F))
  BINARY(+)
  BINARY(-)
  BINARY(*)
  BINARY(/)
  BINARY(%)
  BINARY(==)
  BINARY(!=)
  BINARY(<)
  BINARY(<=)
  BINARY(>)
  BINARY(>=)
#undef BINARY
#define COMPOUND(op)                                                          \
  NOEXCEPT(E(F) op V(F))                                                      \
  NOEXCEPT(E(F) op V(G))                                                      \
  NOEXCEPT(E(F) op V(T))                                                      \
  NOEXCEPT(E(F) op V(int))
  COMPOUND(+=)
  COMPOUND(-=)
  COMPOUND(*=)
  COMPOUND(/=)
  COMPOUND(%=)
#undef COMPOUND
#define UNARY(f) NOEXCEPT(f(V(F)))
  UNARY(is_defined)
  UNARY(is_undefined)
  UNARY(is_positive)
  UNARY(is_non_negative)
  UNARY(is_zero)
  UNARY(is_non_positive)
  UNARY(is_negative)
  UNARY(is_integer)
  UNARY(is_unit_fraction)
  UNARY(is_reduced)
  UNARY(is_reduced_ignore_signs)
  UNARY(is_proper)
  UNARY(is_improper)
  UNARY(reciprocal)
  UNARY(normalize_signs)
  UNARY(reduce_normalize_signs)
  UNARY(reduce_ignore_signs)
  UNARY(reduce)
  UNARY(hash)
  NOEXCEPT(reduce(V(F), reduce_mode::ignore_signs))
  NOEXCEPT(are_identical(V(F), V(F)))
  NOEXCEPT(are_different(V(F), V(F)))
  NOEXCEPT(abs(V(F)))
  NOEXCEPT(trunc(V(F)))
  NOEXCEPT(floor(V(F)))
  NOEXCEPT(ceil(V(F)))
  NOEXCEPT(round(V(F)))
  NOEXCEPT(to_whole(V(F), round_mode::trunc))
  NOEXCEPT(trunc_redenominate(V(F), V(T)))
  NOEXCEPT(floor_redenominate(V(F), V(T)))
  NOEXCEPT(ceil_redenominate(V(F), V(T)))
  NOEXCEPT(round_redenominate(V(F), V(T)))
  NOEXCEPT(redenominate(V(F), V(T), round_mode::ceil))
  NOEXCEPT(pow2<T, O>(3))
  NOEXCEPT(pow<T, O>(V(T), 3))
  NOEXCEPT(mu::pow2<T>(V(T)))
  NOEXCEPT(mu::pow<T>(V(T), V(T)))
  NOEXCEPT(mu::abs<T>(V(T)))
  NOEXCEPT(to_fraction<T, O>(1.0f))
  NOEXCEPT(to_fraction<T, O>(1.0))
  NOEXCEPT(to_float(V(F)))
  NOEXCEPT(to_double(V(F)))
  NOEXCEPT(to_long_double(V(F)))
  NOEXCEPT(floating_point_string_to_fraction<T, O>(V(std::string_view)))
  NOEXCEPT(hash(V(M)))
  NOEXCEPT(hash(V(R)))
  NOEXCEPT(std::hash<R>()(V(R)))
  NOEXCEPT(std::hash<F>()(V(F)))
  NOEXCEPT(std::hash<M>()(V(M)))
  NOEXCEPT(L::min())
  NOEXCEPT(L::max())
  NOEXCEPT(L::smallest())
  NOEXCEPT(L::undefined())
  NOEXCEPT(S::min())
  NOEXCEPT(S::lowest())
  NOEXCEPT(S::max())
  NOEXCEPT(S::epsilon())
  NOEXCEPT(S::quiet_NaN())
  NOEXCEPT(S::round_error())
  NOEXCEPT(S::infinity())
  NOEXCEPT(S::signaling_NaN())
  NOEXCEPT(S::denorm_min())
  NOEXCEPT(std::numeric_limits<M>::min())
  NOEXCEPT(std::numeric_limits<M>::lowest())
  NOEXCEPT(std::numeric_limits<M>::max())
  NOEXCEPT(std::numeric_limits<M>::epsilon())
  NOEXCEPT(std::numeric_limits<M>::quiet_NaN())
  NOEXCEPT(std::numeric_limits<M>::round_error())
  NOEXCEPT(std::numeric_limits<M>::infinity())
  NOEXCEPT(std::numeric_limits<M>::signaling_NaN())
  NOEXCEPT(std::numeric_limits<M>::denorm_min())
  NOEXCEPT(limits<M>::min())
  NOEXCEPT(limits<M>::max())
  NOEXCEPT(limits<M>::smallest())
  NOEXCEPT(limits<M>::undefined())
  NOEXCEPT(V(M).whole())
  NOEXCEPT(V(M).fractional())
  NOEXCEPT(V(M).as_fraction())
  NOEXCEPT(F(V(M)))
  NOEXCEPT(+V(M))
  NOEXCEPT(-V(M))
  NOEXCEPT(V(M) + V(M))
  NOEXCEPT(V(M) + V(N))
  NOEXCEPT(V(M) + V(F))
  NOEXCEPT(V(F) + V(M))
  NOEXCEPT(V(M) + V(T))
  NOEXCEPT(V(T) + V(M))
  NOEXCEPT(literals::operator""_fr(3))
  NOEXCEPT(V(T) / V(U))
  NOEXCEPT(V(F) / V(U))
  NOEXCEPT(-V(U))
  NOEXCEPT(+V(U))
  NOEXCEPT(V(U).value())
  NOEXCEPT(W::now())
  NOEXCEPT(ieme::chrono::to_fractional(V(std::chrono::milliseconds)))
  NOEXCEPT(ieme::chrono::to_fractional(V(std::chrono::system_clock::time_point)))
#undef UNARY
#undef NOEXCEPT
#undef V
#undef E
  return nullptr;
}

// An operation; true if it allocated.
#define OP(what, ...)                                                         \
  if (op == k++)                                                              \
  {                                                                           \
    unsigned long const before = ieme_check_allocations();                    \
    __VA_ARGS__                                                               \
    return ieme_check_allocations() == before ? nullptr : what;               \
  }
#define DO(expr)                                                              \
  {                                                                           \
    auto const result = expr;                                                 \
    sink(result);                                                             \
  }

template <typename T, typename O>
char const* run(int op, Comp const& ca, Comp const& cb, Comp const& cg, i128 cw, int e, double d,
                std::string_view text)
{
  using namespace ieme;
  using F = fraction<T, O>;
  using R = raw_fraction<T>;
  using M = mixed_number<T, T, O>;
  using D = ieme::chrono::duration<T, std::ratio<1>, O>;
  using Q = ieme::chrono::duration<T, std::ratio<60>, O>;
  using W = ieme::chrono::clock_wrapper<Clock<T>, std::ratio<1, 2>, O>;
  F const a = pol::make<T, O>(ca), b = pol::make<T, O>(cb);
  F const g = pol::make<T, O>(cg);
  T const w = T(cw);
  bool const def = ca.d != 0;
  int k = 0;
  OP("plus", DO(a + b) DO(a + w) DO(w + a))
  OP("minus", DO(a - b) DO(a - w) DO(w - a))
  OP("multiplies", DO(a * b) DO(a * w) DO(w * a))
  OP("divides", DO(a / b) DO(a / w) DO(w / a))
  OP("modulus", DO(a % b) DO(a % w) DO(w % a))
  OP("comparison", DO(a == b) DO(a != b) DO(a < b) DO(a <= b) DO(a > b) DO(a >= b) DO(a == w) DO(w < a))
  OP("compound assignment", F v = a; v += b; v *= w; v -= w; v /= b; v %= b; sink(v);)
  OP("unary operator", DO(+a) if constexpr (std::is_signed_v<T>) { DO(-a) } DO(abs(a)) DO(reciprocal(a)))
  OP("reduction", DO(reduce(a)) DO(reduce(a, reduce_mode::ignore_signs)) DO(normalize_signs(a)) DO(reduce(a.raw())) DO(reduce(g)) DO(normalize_signs(g)) DO(reduce_ignore_signs(g.raw())))
  OP("rounding", if (def) { DO(trunc(a)) DO(floor(a)) DO(ceil(a)) DO(round(a)) DO(to_whole(a)) } if (cg.d != 0) { DO(trunc(g)) DO(floor(g)) DO(ceil(g)) })
  OP("redenomination", if (def && w != 0) { DO(redenominate(a, w)) DO(floor_redenominate(a, w)) DO(ceil_redenominate(a, w)) DO(trunc_redenominate(a, w)) })
  OP("query", DO(is_defined(a)) DO(is_positive(a)) DO(is_non_negative(a)) DO(is_zero(a)) DO(is_negative(a)) DO(is_integer(a)) DO(is_unit_fraction(a)) DO(is_reduced(a)) DO(is_proper(a)) DO(is_improper(a)) DO(are_identical(a, b)) DO(are_different(a, b)) DO(is_integer(g)) DO(is_reduced(g)) DO(is_proper(g)) DO(is_unit_fraction(g)) DO(is_negative(g)))
  OP("power", DO((pow2<T, O>(e))) DO((pow<T, O>(T(e % 2 + 2), e / 2))))
  OP("conversion from floating point", DO((to_fraction<T, O>(d))) DO((to_fraction<T, O>(float(d)))))
  OP("conversion to floating point", DO(to_float(a)) DO(to_double(a)) DO(to_long_double(a)) DO(to_double(g)) DO(to_float(g)))
  OP("string conversion", DO((floating_point_string_to_fraction<T, O>(text))))
  OP("hash", DO(hash(a)) DO(hash(b.raw())) DO(std::hash<F>()(b)) DO(std::hash<R>()(a.raw())) DO(hash(g)) DO(hash(g.raw())) DO(hash(M(g.num()))) if (def) { DO(std::hash<M>()(M(T(1), F(T(1), T(2))))) })
  OP("mixed number", if (def) { M const m(a); sink(m); DO(m.as_fraction()) DO(m + T(1)) DO(m + F(T(1), T(2))) DO(m + m) DO(F(m)) })
  OP("conversion", DO((fraction<long long, O>(a))) DO((fraction<long, ops::fast>(b))) DO(F(w)) DO(F(std::ratio<2, 3>())) F v = a; v = b; v = w; sink(v); std::swap(v, v); DO((fraction<long long, O>(g))) DO(reciprocal(g)) DO(M(g.num())))
  OP("duration", if (def && cb.d) { D const x {a}, y {b}; DO(x + y) DO(x < y) DO((std::chrono::duration_cast<Q>(x))) DO(D(std::chrono::duration<T>(T(3)))) DO(x * F(T(2))) })
  OP("clock", Clock<T>::reading = T(mag(cw)); DO(W::now()) DO(ieme::chrono::to_fractional(Clock<T>::now())))
  OP("limits", DO(limits<F>::min()) DO(limits<F>::max()) DO(limits<F>::smallest()) DO(limits<F>::undefined()) DO(limits<M>::max()) DO(std::numeric_limits<F>::lowest()))
  OP("literal", DO(w / literals::operator""_fr(7)))
  return "";
}
#undef OP
#undef DO

template <typename T, typename O>
bool bytes(Comp const& ca, Comp const& cb, i128 w)
{
  using F = ieme::fraction<T, O>;
  auto copied = [](auto const& from, auto to) {
    std::array<unsigned char, sizeof from> store;
    std::memcpy(store.data(), static_cast<void const*>(&from), sizeof from);
    std::memcpy(static_cast<void*>(&to), store.data(), sizeof from);
    return to;
  };
  auto bits = [](auto const& x, auto const& y) { return std::memcmp(static_cast<void const*>(&x), static_cast<void const*>(&y), sizeof x) == 0; };
  auto a = pol::make<T, O>(ca);
  auto b = pol::make<T, O>(cb);
  if (!pol::is(copied(a, b), ca) || i128(copied(a.raw(), b.raw()).numerator) != ca.n)
    return false;
  // bytes and components say the same, whatever the object went through
  F v = b;
  v *= F(T(1), T(2));
  v.numerator() = T(ca.n);
  v.raw().denominator = T(ca.d);
  if (!bits(a, v) || bits(a, b) != (ca.n == cb.n && ca.d == cb.d))
    return false;
  if (ca.d != 0)
  {
    ieme::mixed_number<T, T, O> const m(a), n(T(w < 0 ? -w : w));
    auto const c = copied(m, n);
    if (c.whole() != m.whole() || !pol::is(c.fractional(), pol::comp(m.fractional())))
      return false;
  }
  ieme::chrono::duration<T, std::ratio<60>, O> const x {a}, y {b};
  return pol::is(copied(x, y).count(), ca);
}

int count_ops(Api const& a)
{
  int n = 0;
  while (true)
  {
    char const* const r = a.run(n, {1, 2}, {1, 3}, {1, 2}, 1, 1, 1, "1.");
    if (r && !*r)
      return n;
    ++n;
  }
}

// A literal of any length whose value is small, or no literal.
std::string gen_text(Src& s)
{
  std::string t;
  if (s.below(4) == 3)
  {
    for (int n = int(s.below(200)); n-- > 0;)
      t += "0123456789.eExXpP'+-aFf \0\xb0"[s.below(26)];
    t += "''"; // no literal
    return t;
  }
  auto zeros = [&](int n) {
    for (bool last = false; n-- > 0;)
    {
      bool const sep = last && s.below(8) == 7;
      if (sep)
        t += '\'';
      t += '0';
      last = true;
    }
  };
  bool const hex = s.below(3) == 2;
  if (hex)
    t += s.coin() ? "0x" : "0X";
  zeros(int(s.below(s.coin() ? 4 : 300)));
  t += char('1' + s.below(3));
  t += '.';
  if (s.coin())
    t += '5';
  if (hex || s.coin())
  {
    t += hex ? (s.coin() ? "p" : "P") : (s.coin() ? "e" : "E");
    u64 const sign = s.below(3);
    t += sign ? sign == 1 ? "+" : "-" : "";
    zeros(int(s.below(s.coin() ? 3 : 200)));
    t += char('0' + s.below(2));
  }
  return t;
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  char const* const bad = api.shape();
  c.check(!bad, [&](auto& o) { o << bad << " (" << api.name << ")"; });
  // small components: every result is in range
  auto value = [&](bool nonzero) {
    i128 const m = i128(s.below(nonzero ? 31 : 32)) + (nonzero ? 1 : 0);
    return api.r.is_signed && s.coin() ? -m : m;
  };
  auto comp = [&] {
    Comp v {value(false), value(true)};
    if (s.below(16) == 15)
      v.d = 0;
    return v;
  };
  Comp a = comp(), b = comp();
  int const op = int(s.below(u64(api.count) + 1)) - 1;
  i128 const w = value(false);
  int const e = int(s.below(19)) - 9;
  double d = double(std::int64_t(value(false))) / double(1 << s.below(8));
  if (s.below(16) == 15)
    d = s.coin() ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
  if (op < 0)
  {
    c.note([&](auto& o) { o << "copies of " << str(a) << " and " << str(b); });
    c.check(api.bytes(a, b, w), [&](auto& o) {
      o << "the bytes of " << str(a) << " are not its value, beside " << str(b) << " (" << api.name << ")";
    });
    c.label("bytes");
    c.nontrivial(!same(a, b));
    return;
  }
  std::string const text = gen_text(s);
  Comp const g = gen_comp(s, api.r);
  if (!api.r.is_signed)
  { // stay above zero
    if (d < 0)
      d = -d;
    if (a.d && b.d && cmp(a, b) < 0)
      std::swap(a, b);
  }
  c.note([&](auto& o) {
    o << "operation " << op << " on " << str(a) << ", " << str(b) << ", " << str(w) << ", " << e << ", "
      << d << ", " << str(g) << ", \"" << text << '"';
  });
  char const* const what = api.run(op, a, b, g, w, e, d, text);
  c.check(!what, [&](auto& o) {
    o << what << " allocates memory, with " << str(a) << ", " << str(b) << ", " << str(w) << ", " << str(g) << ", \"" << text
      << "\" (" << api.name << ")";
  });
  c.nontrivial(true);
  c.label("operation");
}

template <typename T, typename P>
void add(double w)
{
  using O = typename P::ops;
  auto* a = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), 0, &shape<T, O>, &run<T, O>, &bytes<T, O>};
  a->count = count_ops(*a);
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

template <typename P>
void add_all()
{
  add<int, P>(2);
  add<long, P>(1);
  add<long long, P>(1);
  add<unsigned, P>(1);
  add<unsigned long, P>(1);
}

PBT_REGISTER([] {
  pbt::rule()
    = "an operation on small fractions, sometimes undefined, with strings of up to some "
      "hundred characters, or byte copies; every case asks every type and expression for its "
      "compile-time guarantees; non-trivial: not two equal fractions";
  add_all<pol::at<PART>>();
#if PART < 5
  add_all<pol::at<PART + 8>>();
#endif
});

} // namespace
