// A small property-based testing engine.
//
// A case is a sequence of recorded choices.  The generator of a property draws
// bounded choices from a Src; a fresh case takes them from a PRNG that is a
// pure function of (seed, property name, case index), a replayed case from the
// recorded list (clamped, 0 past the end).  Failures are shrunk on the choice
// sequence, so that shrinking never leaves the domain of the generator.
#ifndef PBT_HPP
#define PBT_HPP

#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

using u64 = std::uint64_t;
using i64 = std::int64_t;
using i128 = __int128;
using u128 = unsigned __int128;

inline u64 mix(u64 x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline u64 hash_str(std::string const& s)
{
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}

std::string show(i128 v);
std::string show_u(u128 v);
i128 parse_i128(std::string const& s);

struct Failure {
  std::string message;
};
struct Discard {};

class Src {
public:
  std::vector<u64> rec;
  std::vector<u64> const* replay = nullptr;
  std::size_t pos = 0;
  u64 state = 0;

  u64 next()
  {
    state += 0x9e3779b97f4a7c15ULL;
    u64 z = state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }

  // A choice in [0, bound].
  u64 draw(u64 bound)
  {
    u64 v;
    if (replay)
    {
      v = pos < replay->size() ? (*replay)[pos] : 0;
      ++pos;
      if (v > bound)
        v = bound == ~0ULL ? v : v % (bound + 1);
    }
    else
    {
      v = next();
      if (bound != ~0ULL)
        v = u64((u128(v) * (u128(bound) + 1)) >> 64);
    }
    rec.push_back(v);
    return v;
  }

  // Uniform in [0, n), n > 0.
  u64 below(u64 n) { return draw(n - 1); }
  bool coin() { return draw(1) == 1; }
  // True with probability 1/n; shrinks to false.
  bool one_in(u64 n) { return below(n) == n - 1; }
  i64 range(i64 lo, i64 hi) { return i64(u64(lo) + draw(u64(hi) - u64(lo))); }
  template <typename T>
  T const& pick(std::vector<T> const& v)
  {
    return v[below(v.size())];
  }
};

class Ctx {
public:
  Src src;
  bool verbose = false;
  std::string text;             // description, when verbose
  bool nontrivial_ = false;
  u64 case_hash = 0;
  bool may_trap = false;        // nor is a trap
  bool may_be_slow = false;     // not returning in time is no failure of this case
  std::vector<char const*> labels;

  template <typename F>
  void note(F&& f)
  {
    if (verbose)
    {
      std::ostringstream o;
      f(o);
      if (!text.empty())
        text += "; ";
      text += o.str();
    }
  }
  // Marks the case as non-trivial; the hash identifies the case.
  void nontrivial(bool yes = true) { nontrivial_ = nontrivial_ || yes; }
  void label(char const* l) { labels.push_back(l); }
  void label_if(bool c, char const* l)
  {
    if (c)
      labels.push_back(l);
  }
  [[noreturn]] void fail(std::string const& m) { throw Failure {m}; }
  [[noreturn]] void discard() { throw Discard {}; }
  template <typename F>
  void check(bool ok, F&& message)
  {
    if (!ok)
    {
      std::ostringstream o;
      message(o);
      throw Failure {o.str()};
    }
  }
};

// Set in the threads a case starts: a trap there ends the process.
inline thread_local bool in_case_thread = false;

using Body = std::function<void(Ctx&)>;

struct Sub {
  std::string name;
  double weight;
  Body body;
};

std::vector<Sub>& registry();

static inline int add(std::string name, double weight, Body body)
{
#ifdef PBT_PREFIX
  name = PBT_PREFIX " " + name;
#endif
  registry().push_back({std::move(name), weight, std::move(body)});
  return 0;
}

// Describes how cases are made and what makes one non-trivial (for evidence).
std::string& rule();

struct Reg {
  template <typename F>
  explicit Reg(F&& f)
  {
    f();
  }
};

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_REGISTER static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)

#endif
