// C28: operations do not depend on each other, in any interleaving.
//
// Built with the thread sanitizer: a report is a failure of the case.
#include "policies.hpp"

#include <ieme/ieme.hpp>

#include <atomic>
#include <cmath>
#include <condition_variable>
#include <cstdlib>
#include <iomanip>
#include <iterator>
#include <mutex>
#include <sstream>
#include <thread>
#include <unordered_set>

using namespace ref;

namespace race {

using Out = std::vector<std::int64_t>;

// A type of fractions with the operations on it.
struct Type {
  virtual ~Type() = default;
  virtual std::string name() const = 0;
  virtual bool is_signed() const = 0;
  virtual void load(std::vector<Comp> const&) = 0; // the shared operands
  virtual std::vector<Comp> stored() const = 0;
  virtual void run(int op, int i, int j, int k, Out& out) const = 0;
};

extern std::vector<Type*>& types();

} // namespace race

namespace {

using race::Out;

void put(Out& o, std::string const& s) { o.push_back(std::int64_t(pbt::hash_str(s))); }
template <typename T>
  requires std::is_integral_v<T>
void put(Out& o, T v)
{
  o.push_back(std::int64_t(v));
}
template <typename T>
  requires std::is_floating_point_v<T>
void put(Out& o, T v)
{
  double const d = double(v);
  std::int64_t i;
  std::memcpy(&i, &d, 8);
  o.push_back(i);
}
template <typename R>
void put(Out& o, ieme::raw_fraction<R> const& f)
{
  put(o, f.numerator);
  put(o, f.denominator);
}
template <typename R, typename P>
void put(Out& o, ieme::fraction<R, P> const& f)
{
  put(o, f.numerator());
  put(o, f.denominator());
}
template <typename W, typename R, typename P>
void put(Out& o, ieme::mixed_number<W, R, P> const& m)
{
  put(o, m.whole());
  put(o, m.fractional());
}

thread_local int reading; // of the clock of this thread

template <typename Rep>
struct Clock {
  using rep = Rep;
  using period = std::ratio<1, 4>;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<Clock>;
  static constexpr bool is_steady = false;
  static time_point now() noexcept { return time_point {duration {Rep(reading)}}; }
};

char const* const good[] = {"1.5",    "0.25e1", "12.5e-1", "0x1.8p1", ".5",    "2.",
                            "0x1p-3", "1e2",    "3'0.0",   "0x.8p0",  "07.50", "1.0E+1"};
char const* const bad[] = {"", "1", "-1.5", "1.5f", "0x1.8", "1..5", "1e", ".", "1'.5", " 1.5", "0x", "1.5 "};

constexpr int ops_count = 37;

template <typename T, typename O>
struct Impl final : race::Type {
  using F = ieme::fraction<T, O>;
  using R = ieme::raw_fraction<T>;
  using M = ieme::mixed_number<T, T, O>;
  static constexpr bool sig = std::is_signed_v<T>;
  std::string label;
  std::vector<F> f;

  explicit Impl(std::string n) : label(std::move(n)) {}
  std::string name() const override { return label; }
  bool is_signed() const override { return sig; }
  void load(std::vector<Comp> const& v) override
  {
    f.clear();
    for (auto const& c : v)
      f.push_back(pol::make<T, O>(c));
  }
  std::vector<Comp> stored() const override
  {
    std::vector<Comp> r;
    for (auto const& x : f)
      r.push_back(pol::comp(x));
    return r;
  }

  void run(int op, int i, int j, int k, Out& o) const override
  {
    using namespace ieme;
    F const& a = f[std::size_t(i) % f.size()];
    F const& b = f[std::size_t(j) % f.size()];
    T const w = T(k + 1);
    switch (op)
    {
      case 0:
        put(o, a + b);
        put(o, a + w);
        put(o, w + a);
        break;
      case 1:
        if constexpr (sig)
        {
          put(o, a - b);
          put(o, a - w);
          put(o, w - b);
        }
        else
          put(o, (a + b) - b);
        break;
      case 2:
        put(o, a * b);
        put(o, a * w);
        put(o, w * b);
        break;
      case 3:
        if (is_zero(b))
          break;
        put(o, a / b);
        put(o, a / w);
        put(o, w / b);
        break;
      case 4:
        if (is_zero(b))
          break;
        put(o, a % b);
        put(o, a % w);
        break;
      case 5:
        put(o, int(a == b) | int(a != b) << 1 | int(a < b) << 2 | int(a <= b) << 3 | int(a > b) << 4
                 | int(a >= b) << 5);
        put(o, int(a == w) | int(w < a) << 1 | int(a <= w) << 2 | int(w != b) << 3);
        break;
      case 6:
      {
        F v = a;
        v += b;
        put(o, v);
        v *= b;
        put(o, v);
        v += w;
        v *= w;
        v /= w;
        put(o, v);
        if constexpr (sig)
        {
          v = a;
          v -= b;
          put(o, v);
        }
        break;
      }
      case 7:
      {
        F v = a;
        F u = std::move(v);
        v = b;
        std::swap(u, v);
        put(o, u);
        put(o, v);
        v.numerator() = w;
        u.raw().denominator = w;
        put(o, u + v);
        break;
      }
      case 8:
        put(o, +a);
        if constexpr (sig)
          put(o, -a);
        put(o, abs(a));
        put(o, reciprocal(a));
        break;
      case 9:
        put(o, reduce(a));
        put(o, reduce(a, reduce_mode::ignore_signs));
        put(o, reduce_normalize_signs(a));
        put(o, reduce_ignore_signs(b));
        put(o, normalize_signs(b));
        break;
      case 10:
        put(o, trunc(a));
        put(o, floor(a));
        put(o, ceil(a));
        put(o, round(a));
        put(o, to_whole(b));
        break;
      case 11:
        put(o, floor_redenominate(a, w));
        put(o, ceil_redenominate(a, w));
        put(o, trunc_redenominate(b, w));
        put(o, round_redenominate(b, w));
        put(o, redenominate(a, w));
        break;
      case 12:
        put(o, pow2<T, O>(k % 7 - 3));
        put(o, ieme::pow<T, O>(T(j % 5 + 1), k % 5 - 2));
        break;
      case 13:
        put(o, int(is_defined(a)) | int(is_undefined(a)) << 1 | int(is_positive(a)) << 2
                 | int(is_non_negative(a)) << 3 | int(is_zero(a)) << 4 | int(is_non_positive(a)) << 5
                 | int(is_negative(a)) << 6 | int(is_integer(a)) << 7 | int(is_unit_fraction(a)) << 8
                 | int(is_reduced(a)) << 9 | int(is_reduced_ignore_signs(a)) << 10 | int(is_proper(a)) << 11
                 | int(is_improper(a)) << 12 | int(are_identical(a, b)) << 13 | int(are_different(a, b)) << 14);
        break;
      case 14:
        put(o, to_double(a));
        put(o, to_float(b));
        put(o, to_long_double(a));
        break;
      case 15:
      { // values that are equal as wholes, as floats or in their low bits
        double const near = double(k % 3) + (j % 2 ? std::ldexp(1., -(16 + 4 * (i % 4))) : 0.);
        put(o, to_fraction<T, O>(near));
        put(o, to_fraction<T, O>(float(k % 3) + std::ldexp(float(j % 2), -(18 + i % 3))));
        put(o, to_fraction<T, O>(std::ldexp(1., k % 8 - 4)));
        put(o, to_fraction<T, O>(double(k + 1) / 8));
        put(o, to_fraction<T, O>(float(j + 1) / 4));
        if constexpr (sig)
        {
          put(o, to_fraction<T, O>(-double(i + 1) / 2));
          put(o, to_fraction<T, O>(i % 2 ? -near : near));
        }
        put(o, to_fraction<T, O>(std::numeric_limits<double>::infinity()));
        break;
      }
      case 16:
        put(o, floating_point_string_to_fraction<T, O>(good[k % 12]));
        put(o, floating_point_string_to_fraction<T, O>(bad[j % 12]));
        break;
      case 17:
      {
        put(o, literals::operator""_dec(good[k % 12]));
        bool threw = false;
        try
        {
          put(o, literals::operator""_dec(bad[j % 12]));
        }
        catch (char const*)
        {
          threw = true;
        }
        put(o, threw);
        put(o, w / literals::operator""_fr(3));
        if constexpr (std::is_same_v<O, ops::defaults>)
          put(o, a / literals::operator""_fr(2));
        break;
      }
      case 18:
      {
        std::ostringstream s;
        s << a << ' ' << std::setw(k % 7) << std::showpos << b << ' ' << std::hex << a.raw();
        put(o, s.str());
        break;
      }
      case 19:
      {
        std::stringstream s;
        s << a << ' ' << b << ' ' << a.raw();
        F x, y;
        R z;
        s >> x >> y >> z;
        put(o, x);
        put(o, y);
        put(o, z);
        put(o, int(s.fail()));
        s >> x;
        put(o, int(s.fail()));
        std::istringstream t(std::to_string(k % 3) + "/" + std::to_string(j % 3 + 1) + " "
                             + std::to_string(k % 3) + "/" + std::to_string(i % 2 + 1) + " "
                             + std::to_string(k % 3) + "x/3");
        t >> x >> z;
        put(o, x);
        put(o, z);
        t >> y;
        put(o, int(t.fail()));
        break;
      }
      case 20:
        put(o, std::hash<F>()(a));
        put(o, ieme::hash(b));
        put(o, std::hash<R>()(a.raw()));
        { // mixed numbers with the same whole part or the same fraction
          M const m(T(k % 3), F(T(j % 3), T(i % 2 + 2)));
          put(o, std::hash<M>()(m));
          put(o, ieme::hash(M(T(k % 3))));
          put(o, ieme::hash(M(a)));
        }
        { // fractions that are equal as values, or share a component
          F const x(T(k % 3), T(j % 3 + 1)), y(T(T(k % 3) * 2), T(T(j % 3 + 1) * 2));
          put(o, ieme::hash(x));
          put(o, ieme::hash(y.raw()));
          put(o, std::hash<F>()(F(T(j % 3), T(k % 3 + 1))));
          if constexpr (sig)
            put(o, ieme::hash(F(T(-x.numerator()), T(-x.denominator()))));
        }
        break;
      case 21:
      {
        std::unordered_set<F> set(f.begin(), f.end());
        put(o, set.size());
        put(o, set.count(a));
        break;
      }
      case 22:
      {
        M const m(a);
        put(o, m);
        put(o, m + M(b));
        put(o, m + b);
        put(o, m + w);
        put(o, M(w, a));
        put(o, m.as_fraction());
        if constexpr (sig)
          put(o, -m);
        break;
      }
      case 23:
      {
        put(o, fraction<long long, O>(a));
        put(o, fraction<long, ops::fast>(b));
        fraction<long long, O> v = a;
        v += a;
        put(o, v);
        put(o, fraction<T, O>(std::ratio<3, 4>()) + a);
        break;
      }
      case 24:
      {
        using D = ieme::chrono::duration<T, std::ratio<1>, O>;
        using E = ieme::chrono::duration<T, std::ratio<60>, O>;
        D const x {a};
        put(o, (x + D {b}).count());
        put(o, int(x < D {b}) | int(x == D {b}) << 1);
        put(o, std::chrono::duration_cast<E>(x).count());
        put(o, D(E {b}).count());
        break;
      }
      case 25:
      {
        using W = ieme::chrono::clock_wrapper<Clock<T>, std::ratio<1, 2>, O>;
        reading = k;
        auto const x = W::now();
        reading = k + 3;
        auto const y = W::now();
        put(o, x.time_since_epoch().count());
        put(o, (y - x).count());
        break;
      }
      case 26:
      {
        using L = limits<F>;
        using N = std::numeric_limits<F>;
        put(o, L::max());
        put(o, L::min());
        put(o, L::smallest());
        put(o, L::undefined());
        put(o, N::lowest());
        put(o, N::epsilon());
        put(o, N::quiet_NaN());
        put(o, limits<M>::max());
        put(o, limits<M>::undefined());
        break;
      }
      case 27:
      {
        R const r = a.raw();
        put(o, reduce(r));
        put(o, reciprocal(r));
        put(o, normalize_signs(r));
        put(o, int(is_zero(r)) | int(is_integer(r)) << 1 | int(is_reduced(r)) << 2);
        break;
      }
      case 28:
      { // undefined values
        F const u(a.numerator(), T(0));
        put(o, is_undefined(u));
        put(o, is_defined(u + a));
        put(o, is_defined(u * b));
        put(o, is_defined(a / T(0)));
        put(o, int(u == a) | int(u != a) << 1 | int(u < a) << 2 | int(u >= b) << 3);
        std::ostringstream s;
        s << u;
        put(o, s.str());
        break;
      }
      // One call only, so that consecutive calls can have nearly the same operand.
      case 30:
      {
        double const near = double(k % 2) + (j % 2 ? std::ldexp(1., -(16 + 4 * (i % 4))) : 0.);
        put(o, to_fraction<T, O>(sig && j % 3 == 2 ? -near : near));
        break;
      }
      case 31:
      {
        float const near = float(k % 2) + (j % 2 ? std::ldexp(1.f, -(14 + 2 * (i % 4))) : 0.f);
        put(o, to_fraction<T, O>(sig && j % 3 == 2 ? -near : near));
        break;
      }
      case 32:
        put(o, ieme::hash(F(T(k % 2 + 1), T(j % 2 + 1))));
        break;
      case 33:
        put(o, ieme::hash(M(T(k % 2), F(T(j % 3), T(i % 2 + 2)))));
        break;
      case 34:
      {
        std::ostringstream s;
        if (i % 4 == 3)
          s << R {T(k % 2 + 1), T(j % 2 + 1)};
        else
        {
          if (i % 4 == 2)
            s << std::showpos << std::hex;
          s << F(T(k % 2 + 1), T(j % 2 + 1));
        }
        put(o, s.str());
        break;
      }
      case 35:
      {
        static char const* const text[] = {"1/2", "1/3", "2/1", "2/2", "10/2", "1x2/3", "x/2", "1", "1/", "+1/2"};
        std::istringstream s(text[k % 10]);
        F x;
        s >> x;
        put(o, int(s.fail()));
        if (!s.fail())
          put(o, x);
        break;
      }
      case 36:
      {
        using W = ieme::chrono::clock_wrapper<Clock<T>, std::ratio<1, 2>, O>;
        reading = k % 4;
        put(o, W::now().time_since_epoch().count());
        break;
      }
      default:
      { // an operation over a history
        F v(T(1));
        for (auto const& x : f)
        {
          v = F(T(1), T(2)) + x;
          if (v < a)
            v = a;
          put(o, v);
        }
        break;
      }
    }
  }
};

template <typename T, int I>
void add_type()
{
  using P = pol::at<I>;
  race::types().push_back(new Impl<T, typename P::ops>(P::info().name + " " + rep_name<T>()));
}

} // namespace

#if PART == 0

#include <sched.h>

namespace {
std::atomic<unsigned> reports;
}

extern "C" void __tsan_on_report(void*) { reports.fetch_add(1, std::memory_order_relaxed); }
extern "C" char const* __tsan_default_options()
{
  return "halt_on_error=0:exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0:"
         "report_signal_unsafe=0:log_path=/dev/null:history_size=4:die_after_fork=0";
}

namespace race {
std::vector<Type*>& types()
{
  static std::vector<Type*> t;
  return t;
}
} // namespace race

namespace {

struct Step {
  int type, op, i, j, k;
  bool yield;
};

using Plan = std::vector<Step>;

void run_plan(std::vector<race::Type*> const& types, Plan const& plan, std::vector<Out>& out, bool backwards)
{
  out.assign(plan.size(), {});
  for (std::size_t n = 0; n < plan.size(); ++n)
  {
    std::size_t const x = backwards ? plan.size() - 1 - n : n;
    Step const& s = plan[x];
    types[std::size_t(s.type)]->run(s.op, s.i, s.j, s.k, out[x]);
    if (s.yield)
      sched_yield();
  }
}

void body(Ctx& c)
{
  Src& s = c.src;
  auto const& all = race::types();
  // the types of this case, with their operands
  int const kinds = 1 + int(s.below(3));
  std::vector<race::Type*> types;
  std::vector<std::vector<Comp>> operands;
  for (int t = 0; t < kinds; ++t)
  {
    types.push_back(all[s.below(all.size())]);
    int const n = 1 + int(s.below(4));
    std::vector<Comp> v;
    for (int x = 0; x < n; ++x)
    {
      Comp q {i128(s.below(31)), 1 + i128(s.below(9))};
      if (types.back()->is_signed())
      {
        if (s.below(3) == 1)
          q.n = -q.n;
        if (s.below(4) == 1)
          q.d = -q.d;
      }
      v.push_back(q);
    }
    operands.push_back(v);
  }
  for (int t = 0; t < kinds; ++t)
    for (int u = 0; u < t; ++u)
      if (types[std::size_t(t)] == types[std::size_t(u)])
        operands[std::size_t(t)] = operands[std::size_t(u)];
  for (int t = 0; t < kinds; ++t)
    types[std::size_t(t)]->load(operands[std::size_t(t)]);
  // what each thread does
  int const threads = 2 + int(s.below(3));
  int const focus = s.coin() ? int(s.below(ops_count)) : -1; // often the same operation in all
  std::vector<Plan> plans;
  std::size_t steps = 0;
  for (int t = 0; t < threads; ++t)
  {
    Plan p;
    int const n = 1 + int(s.below(10));
    for (int x = 0; x < n; ++x)
    {
      Step st;
      st.type = int(s.below(u64(kinds)));
      // the operations that are not constexpr are the ones that could keep something
      static constexpr int impure[] = {15, 18, 19, 20, 21, 25, 30, 31, 32, 33, 34, 35, 36};
      st.op = focus >= 0 && s.below(3) != 2 ? focus
              : s.below(3) == 1             ? impure[s.below(std::size(impure))]
                                            : int(s.below(ops_count));
      st.i = int(s.below(4));
      st.j = int(s.below(12));
      st.k = int(s.below(12));
      st.yield = s.below(4) == 3;
      p.push_back(st);
    }
    steps += p.size();
    plans.push_back(p);
  }
  c.note([&](auto& o) {
    for (int t = 0; t < kinds; ++t)
    {
      o << "(" << types[std::size_t(t)]->name() << ":";
      for (auto const& v : operands[std::size_t(t)])
        o << " " << str(v);
      o << ") ";
    }
    for (auto const& p : plans)
    {
      o << "[";
      for (auto const& st : p)
        o << " op" << st.op << "." << st.type << "(" << st.i << "," << st.j << "," << st.k << ")";
      o << " ]";
    }
  });
  unsigned const before = reports.load();
  int const rounds = s.replay ? 100 : 3; // a bad interleaving may need several attempts
  std::vector<std::vector<std::vector<Out>>> got(plans.size());
  {
    std::atomic<int> ready {0};
    std::mutex m;
    std::condition_variable done;
    int finished = 0;
    std::vector<std::thread> pool;
    for (std::size_t t = 0; t < plans.size(); ++t)
      pool.emplace_back([&, t] {
        pbt::in_case_thread = true;
        got[t].resize(rounds);
        ++ready;
        while (ready.load() < threads)
          sched_yield();
        for (int r = 0; r < rounds; ++r)
          run_plan(types, plans[t], got[t][std::size_t(r)], false);
        std::lock_guard l(m);
        ++finished;
        done.notify_one();
      });
    {
      std::unique_lock l(m);
      if (!done.wait_for(l, std::chrono::seconds(30), [&] { return finished == threads; }))
        std::_Exit(1); // a hang
    }
    for (auto& t : pool)
      t.join();
  }
  c.check(reports.load() == before, [&](auto& o) {
    o << "data race between operations in " << threads << " threads that share only operands they read";
  });
  for (bool backwards : {false, true})
    for (std::size_t t = 0; t < plans.size(); ++t)
    {
      std::vector<Out> alone;
      run_plan(types, plans[t], alone, backwards);
      for (int r = 0; r < rounds; ++r)
        for (std::size_t x = 0; x < alone.size(); ++x)
          c.check(alone[x] == got[t][std::size_t(r)][x], [&](auto& o) {
            o << "operation " << plans[t][x].op << " gives another result alone than among other "
              << "operations (" << types[std::size_t(plans[t][x].type)]->name() << ")";
          });
    }
  for (int t = 0; t < kinds; ++t)
  {
    auto const now = types[std::size_t(t)]->stored();
    for (std::size_t x = 0; x < now.size(); ++x)
      c.check(now[x].n == operands[std::size_t(t)][x].n && now[x].d == operands[std::size_t(t)][x].d,
              [&](auto& o) { o << "an operand that is only read has changed"; });
  }
  c.nontrivial(steps > 3);
  c.label_if(focus >= 0, "one operation in all threads");
  c.label_if(kinds > 1, "several types");
}

PBT_REGISTER([] {
  pbt::rule()
    = "two to four threads run generated sequences of operations (arithmetic, comparisons, "
      "updates, rounding, queries, conversions, text, hashes, mixed numbers, durations, clocks) on "
      "shared operands under the thread sanitizer; every result is compared with the same operation "
      "run alone, forwards and backwards; non-trivial: more than three operations";
  pbt::add("interleavings", 1, body);
});

} // namespace

#endif

namespace {
PBT_REGISTER([] {
#if PART == 0
  add_type<int, 0>();
  add_type<int, 2>();
#elif PART == 1
  add_type<long, 0>();
  add_type<unsigned, 1>();
#elif PART == 2
  add_type<long long, 0>();
  add_type<int, 10>();
#elif PART == 3
  add_type<long, 2>();
  add_type<int, 12>();
#elif PART == 4
  add_type<long, 4>();
  add_type<unsigned long, 0>();
#elif PART == 5
  add_type<long long, 5>();
  add_type<int, 9>();
#endif
});
} // namespace
