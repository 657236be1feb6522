// C15: strings outside the floating-literal grammar are rejected, never misread.
#include "literal.hpp"
#include "policies.hpp"

#include <ieme/floating_point.hpp>

using namespace ref;

namespace {

struct Api {
  std::string name;
  bool plain; // neither reduces nor computes common denominators
  RepInfo r;
  Comp (*convert)(std::string_view s);
};

template <typename T, typename Ops>
Comp convert(std::string_view s)
{
  return pol::comp(ieme::floating_point_string_to_fraction<T, Ops>(s));
}

std::string const alphabet = "0123456789.'eEpPxX+-abcdefABCDEF01.'e fFlLuUdDgG_/:@`\t\n";

char any_char(Src& s)
{
  return s.below(12) == 11 ? char(s.draw(255)) : alphabet[s.below(alphabet.size())];
}

std::string gen(Src& s, RepInfo const& r, bool& mutated)
{
  mutated = false;
  switch (s.below(8))
  {
    case 0:
    { // short strings over few characters
      std::string t;
      static std::string const few = "019.'eEpPxX+-aF";
      for (int n = int(s.below(7)); n-- > 0;)
        t += few[s.below(few.size())];
      return t;
    }
    case 1:
    { // any characters
      std::string t;
      for (int n = int(s.below(s.coin() ? 10 : 60)); n-- > 0;)
        t += any_char(s);
      return t;
    }
    case 2:
    { // long digit sequences, most out of range
      std::string t;
      if (s.coin())
        t = s.coin() ? "0x" : "0X";
      auto run = [&](u64 max) {
        for (u64 n = s.below(max); n-- > 0;)
          t += char('0' + s.below(10));
      };
      run(s.coin() ? 4 : 80);
      if (s.coin())
        t += '.';
      run(s.coin() ? 4 : 80);
      if (s.coin())
      {
        t += t[0] == '0' && t.size() > 1 && t[1] > '9' ? 'p' : 'e';
        if (s.coin())
          t += s.coin() ? '-' : '+';
        run(s.coin() ? 4 : 30);
      }
      return t;
    }
    default:
      break;
  }
  std::string t;
  int n;
  if (s.below(16) == 9)
  { // words, in a literal's place
    static char const* const words[] = {
      "inf", "nan", "INF", "NAN", "infinity", "Infinity", "NaN", "nan(1)", "nan()", "snan", "-inf", "+nan", "infinit", "null", "none", "true",
      "1/2", "1:2", "3 1/2", "1,5", "1.000,5", "1_000.5", "0b1.1", "0b1p1", "0o7.1", "1.5pt", "50%", ".5.", "1..5", "...", "1e5e", "1.#INF",
      "1.#QNAN", "1.e", "0x", "0x.", "0xp1", "0x.p1", "0x1.8", "0x1", "0x1e5", "00x1p1", "x1p1", "1x0p1", "#1.5", "$1.5", "1.5f16", "1.5bf16",
      "1.5f32", "1.5f64", "1.5f128", "1.5df", "1.5dd", "1.5dl", "1.5q", "1.5w", "1.5i", "1.5if", "1.5s", "1.5ms", "1.5h", "1.5y", "1.5_fr", "1.5_dec",
      "1.5*", "(1.5)", "{1.5}", "[1.5]", "\"1.5\"", "1.5;", "1.5//", "1.5/*", "1 .5", "1. 5", "1.5 e1", "1.5e 1", "--1.5", "+-1.5", "- 1.5",
      "1.5e--1", "1.5e+-1", "1.5e1.", "1.5e.1", "1.5e'1", "1'.5", "1.'5", "1''0.5", "'1.5", "1.5'", "1.5e1'", "1.5e1''0", "1.5ee1", "1.5eE1", "1.5p1",
      "0x1.8e1", "0x1.8p", "0x1.8p+", "0x1.8pa", "0x'1.8p1", "0'x1.8p1", "0x1.8p0x1", "0x1.gp1", "0x0x1p1"};
    auto const& seen = texts_in_headers();
    t = s.below(4) == 3 ? seen[s.below(seen.size())] : words[s.below(std::size(words))];
    n = int(s.below(3));
    if (n == 2)
    { // around a literal
      std::string const l = lit::generate(s, r).text;
      t = s.coin() ? l + t : t + l;
    }
    mutated = n > 0;
  }
  else
  {
    t = lit::generate(s, r).text;
    n = int(s.below(4));
  }
  for (int k = 0; k < n; ++k)
  {
    mutated = true;
    std::size_t const at = s.below(t.size() + 1);
    switch (s.below(8))
    {
      case 0:
        t.insert(at, 1, any_char(s));
        break;
      case 1:
        if (at < t.size())
          t.erase(at, 1);
        break;
      case 2:
        if (at < t.size())
          t[at] = any_char(s);
        break;
      case 3: // duplicate a character
        if (at < t.size())
          t.insert(at, 1, t[at]);
        break;
      case 4: // swap neighbours
        if (at + 1 < t.size())
          std::swap(t[at], t[at + 1]);
        break;
      case 5: // truncate
        t.resize(at);
        break;
      case 6:
      { // the usual decorations
        static char const* const pre[] = {"-", "+", " ", "'", "0x", "0", ".", "00x"};
        static char const* const post[]
          = {"f", "F", "l", "L", " ", "'", "e", "p", ".", "e+", "p-", "e1", "p1", "\n", "d", "_dec", "e1.0", std::data("")};
        if (s.coin())
          t = pre[s.below(8)] + t;
        else
          t += post[s.below(17)];
        break;
      }
      case 7: // repeat a part
        t += t.substr(at);
        break;
    }
  }
  return t;
}

// The number of significant digits of the exponent, and where its first one is.
int exponent_digits(std::string const& t, std::size_t& first)
{
  bool const hex = t.size() > 1 && t[0] == '0' && (t[1] | 32) == 'x';
  std::size_t i = t.find_last_of(hex ? "pP" : "eE");
  if (i == t.npos)
    return 0;
  ++i;
  if (i < t.size() && (t[i] == '+' || t[i] == '-'))
    ++i;
  while (i < t.size() && (t[i] == '0' || t[i] == '\''))
    ++i;
  first = i;
  int n = 0;
  for (; i < t.size() && ((t[i] >= '0' && t[i] <= '9') || t[i] == '\''); ++i)
    n += t[i] != '\'';
  return n;
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  bool mutated;
  std::string t = gen(s, api.r, mutated);
  // Huge exponents are out of range, and computing their powers may take time:
  // they are rare, and only have not to trap.
  std::size_t at = 0;
  if (exponent_digits(t, at) > 4)
  {
    if (s.one_in(1 << 18))
      c.may_be_slow = true;
    else
      t.erase(at + s.below(4) + 1);
  }
  auto const parsed = lit::parse(t);
  std::optional<Comp> value;
  if (parsed)
    value = lit::value(*parsed, api.r);
  c.note([&](auto& o) {
    o << lit::quote(t) << (parsed ? value ? " (valid)" : " (valid, out of range)" : " (invalid)");
  });
  // Out of range, components may wrap to the most negative value, whose lowest
  // terms do not exist.
  c.may_trap = parsed && !value && !api.plain;
  Comp const got = api.convert(lit::guarded().put(t, s.coin()));
  c.may_trap = false;
  if (!parsed)
    c.check(got.d == 0, [&](auto& o) {
      o << lit::quote(t) << " is no floating literal, but gave " << str(got) << " (" << api.name << ")";
    });
  else if (value)
    c.check(got.d != 0 && cmp(got, *value) == 0, [&](auto& o) {
      o << lit::quote(t) << " is a floating literal of value " << str(*value) << ", but gave "
        << str(got) << " (" << api.name << ")";
    });
  c.nontrivial(t.size() > 1);
  c.label(!parsed ? "invalid" : value ? "valid" : "valid, out of range");
  c.label_if(mutated && !parsed, "invalid by mutation");
}

template <typename T, typename P>
void add(double w)
{
  auto* a = new Api {P::info().name + " " + rep_name<T>(),
                     !P::info().safe && !P::info().in_reduce && !P::info().out_reduce, rep_info<T>(), &convert<T, typename P::ops>};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

PBT_REGISTER([] {
  pbt::rule()
    = "valid literals with up to three mutations (insert, delete, replace, duplicate, "
      "swap, truncate, decorate, repeat), short strings over the marker characters, any "
      "bytes, overlong digit sequences, words and near misses; an independent recogniser and evaluator decide; "
      "text next to inaccessible memory; non-trivial: at least two characters";
#if PART == 0
  add<int, pol::at<0>>(2);
  add<unsigned, pol::at<0>>(1);
  add<int, pol::at<2>>(1);
#elif PART == 1
  add<long, pol::at<0>>(3);
  add<unsigned long, pol::at<0>>(1);
  add<long, pol::at<9>>(1);
#else
  add<long long, pol::at<0>>(2);
  add<long long, pol::at<1>>(1);
  add<unsigned long long, pol::at<0>>(1);
#endif
});

} // namespace
