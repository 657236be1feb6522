// An independent recogniser and evaluator of unsuffixed floating literals.
#ifndef LITERAL_HPP
#define LITERAL_HPP

#include "ref.hpp"

#include <sys/mman.h>
#include <unistd.h>

#include <cstring>
#include <optional>
#include <string>
#include <string_view>

namespace lit {

using namespace ref;

struct Literal {
  int base = 10;
  std::string whole, frac, exp; // digits without separators
  bool exp_negative = false;
};

// digit-sequence: digit ('opt digit)*
inline bool digits(std::string const& s, std::size_t& i, int base, std::string& out)
{
  auto is_digit = [&](std::size_t k) {
    if (k >= s.size())
      return false;
    char const ch = s[k];
    return (ch >= '0' && ch <= '9')
           || (base == 16 && ((ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')));
  };
  if (!is_digit(i))
    return false;
  out += s[i++];
  for (;;)
  {
    if (is_digit(i))
      out += s[i++];
    else if (i < s.size() && s[i] == '\'' && is_digit(i + 1))
    {
      out += s[i + 1];
      i += 2;
    }
    else
      return true;
  }
}

inline std::optional<Literal> parse(std::string const& s)
{
  Literal l;
  std::size_t i = 0;
  if (s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'))
  {
    l.base = 16;
    i = 2;
  }
  bool const w = digits(s, i, l.base, l.whole);
  bool dot = false, f = false;
  if (i < s.size() && s[i] == '.')
  {
    dot = true;
    ++i;
    f = digits(s, i, l.base, l.frac);
  }
  if (!w && !f)
    return std::nullopt;
  bool exp = false;
  if (i < s.size()
      && (l.base == 10 ? s[i] == 'e' || s[i] == 'E' : s[i] == 'p' || s[i] == 'P'))
  {
    exp = true;
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-'))
      l.exp_negative = s[i++] == '-';
    if (!digits(s, i, 10, l.exp))
      return std::nullopt;
  }
  if (i != s.size())
    return std::nullopt;
  if (l.base == 16 ? !exp : !dot && !exp)
    return std::nullopt;
  return l;
}

inline int digit_value(char ch)
{
  return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
}

// The value, if every value involved in computing it fits the representation:
// the digit sequences, the scale factors and the products.
inline std::optional<Comp> value(Literal const& l, RepInfo const& r)
{
  Fit f = fit_of(r);
  i128 w = 0, n = 0, d = 1, e = 0, p = 1;
  for (char ch : l.whole)
    w = f.add(f.mul(w, l.base), digit_value(ch));
  for (char ch : l.frac)
  {
    n = f.add(f.mul(n, l.base), digit_value(ch));
    d = f.mul(d, l.base);
  }
  if (!f.ok)
    return std::nullopt;
  Fit fe {0, 100000};
  for (char ch : l.exp)
    e = fe.add(fe.mul(e, 10), digit_value(ch));
  if (!fe.ok)
    return std::nullopt;
  for (i128 k = 0; k < e && f.ok; ++k)
    p = f.mul(p, l.base == 10 ? 10 : 2);
  if (!f.ok)
    return std::nullopt;
  i128 num = f.add(f.mul(w, d), n), den = d;
  if (l.exp_negative)
    den = f.mul(den, p);
  else
    num = f.mul(num, p);
  if (!f.ok)
    return std::nullopt;
  return Comp {num, den};
}

// A string between two inaccessible pages, right before (or after) one.
class Guarded {
  char* base_ = nullptr;
  std::size_t page_ = std::size_t(sysconf(_SC_PAGESIZE));

public:
  Guarded()
  {
    void* p = mmap(nullptr, 3 * page_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
      return;
    base_ = static_cast<char*>(p);
    mprotect(base_, page_, PROT_NONE);
    mprotect(base_ + 2 * page_, page_, PROT_NONE);
  }
  std::string_view put(std::string const& s, bool at_end)
  {
    if (!base_ || s.size() > page_)
      return s;
    char* p = at_end ? base_ + 2 * page_ - s.size() : base_ + page_;
    if (!s.empty())
      std::memcpy(p, s.data(), s.size());
    return {p, s.size()};
  }
};

inline Guarded& guarded()
{
  static Guarded g;
  return g;
}

inline std::string quote(std::string const& s)
{
  std::string r = "\"";
  char buf[8];
  for (unsigned char ch : s)
    if (ch < 32 || ch > 126 || ch == '"' || ch == '\\')
    {
      std::snprintf(buf, sizeof buf, "\\x%02x", ch);
      r += buf;
    }
    else
      r += char(ch);
  return r + "\"";
}

// --- generation ----------------------------------------------------------------

inline std::string spell_digits(i128 v, int base, int min_digits, bool upper)
{
  std::string r;
  while (v || int(r.size()) < min_digits)
  {
    int const d = int(v % base);
    r.insert(r.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10));
    v /= base;
  }
  return r;
}

inline std::string separators(Src& s, std::string const& t, int style)
{
  if (style == 0 || t.size() < 2)
    return t;
  std::string r(1, t[0]);
  for (std::size_t i = 1; i < t.size(); ++i)
  {
    bool const sep = style == 1   ? s.below(4) == 3
                     : style == 2 ? (t.size() - i) % 3 == 0
                                  : true;
    if (sep)
      r += '\'';
    r += t[i];
  }
  return r;
}

// A literal in range of r: its text and value.
struct Generated {
  std::string text;
  Comp value;
  bool separators = false, exponent = false, hex = false;
};

inline Generated generate(Src& s, RepInfo const& r)
{
  Generated g;
  int const base = s.below(3) == 2 ? 16 : 10;
  g.hex = base == 16;
  // precision, then the digits, then the exponent, all in range
  int max_prec = 0;
  for (i128 d = 1; d <= r.max / base; d *= base)
    ++max_prec;
  int const prec = s.below(4) == 3 ? 0 : int(s.below(u64(max_prec) + 1));
  i128 den = 1;
  for (int k = 0; k < prec; ++k)
    den *= base;
  i128 n = gen_mag(s, r.max);
  if (s.below(4) == 3)
    n = gen_mag(s, den < r.max ? den : r.max);
  if (prec && s.below(4) == 3)
    n = n / base * base; // trailing zero
  i128 const ebase = base == 10 ? 10 : 2;
  int e = 0;
  bool const eneg = s.coin();
  bool has_exp = base == 16 || s.coin() || (prec == 0 && s.coin());
  i128 p = 1;
  if (has_exp)
  {
    if (s.coin() && n > 0)
      while (n > 0 && s.below(3) && p < r.max / ebase)
        if (!eneg)
        {
          n /= ebase;
          p *= ebase;
        }
        else
          break;
    p = 1;
    i128 const room = eneg ? r.max / den : n ? r.max / n : r.max;
    int max_e = 0;
    for (i128 q = 1; q <= room / ebase; q *= ebase)
      ++max_e;
    e = s.below(4) == 3 ? max_e : int(s.below(u64(max_e) + 1));
    for (int k = 0; k < e; ++k)
      p *= ebase;
  }
  g.value = eneg ? Comp {n, den * p} : Comp {n * p, den};
  g.exponent = e != 0;
  i128 const w = n / den, f = n % den;
  bool const upper = s.coin();
  std::string ws = spell_digits(w, base, 1, upper), fs = spell_digits(f, base, prec, upper);
  // hexadecimal digits may mix cases
  if (base == 16 && s.below(4) == 3)
    for (auto* t : {&ws, &fs})
      for (char& ch : *t)
        if (ch > '9' && s.coin())
          ch = char(ch ^ 32);
  if (w == 0 && prec > 0 && s.coin())
    ws.clear();
  else if (s.below(4) == 3)
    ws.insert(0, s.below(s.coin() ? 4 : 30) + 1, '0');
  int const style = s.coin() ? 0 : 1 + int(s.below(3));
  g.separators = style != 0;
  std::string es = spell_digits(e, 10, 1, false);
  if (s.below(4) == 3)
    es.insert(0, s.below(s.coin() ? 4 : 30) + 1, '0');
  if (base == 16)
    g.text += s.coin() ? "0x" : "0X";
  g.text += separators(s, ws, style);
  bool const dot = prec > 0 || !has_exp || s.coin();
  if (dot)
    g.text += '.';
  g.text += separators(s, fs, style);
  if (has_exp)
  {
    g.text += base == 10 ? (s.coin() ? 'E' : 'e') : (s.coin() ? 'P' : 'p');
    if (eneg)
      g.text += '-';
    else if (s.coin())
      g.text += '+';
    g.text += separators(s, es, style);
  }
  return g;
}

} // namespace lit

#endif
