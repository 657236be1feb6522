// C17: text output and input of fractions round-trip.
#include "policies.hpp"

#include <ieme/fraction.hpp>
#include <ieme/raw_fraction.hpp>

#include <ios>
#include <locale>
#include <sstream>
#include <streambuf>

using namespace ref;

namespace {

struct ReadResult {
  bool failed;
  Comp value;
};

struct Api {
  std::string name;
  RepInfo r;
  std::string (*write)(Comp const& v);
  void (*write_all)(std::ostream& o, std::vector<Comp> const& v, std::vector<std::string> const& sep);
  ReadResult (*read)(std::istream& i);
};

template <typename F>
Comp comp_of(F const& f)
{
  if constexpr (requires { f.raw(); })
    return {i128(f.numerator()), i128(f.denominator())};
  else
    return {i128(f.numerator), i128(f.denominator)};
}

template <typename F, typename T>
F make(Comp const& v)
{
  return F(T(v.n), T(v.d));
}

template <typename F, typename T>
std::string write(Comp const& v)
{
  std::ostringstream o;
  o << make<F, T>(v);
  return o.str();
}

template <typename F, typename T>
void write_all(std::ostream& o, std::vector<Comp> const& v, std::vector<std::string> const& sep)
{
  for (std::size_t k = 0; k < v.size(); ++k)
    o << make<F, T>(v[k]) << sep[k];
}

template <typename F, typename T>
ReadResult read(std::istream& i)
{
  F f(T(7), T(3));
  auto& ret = i >> f;
  ReadResult r {i.fail(), comp_of(f)};
  if (&ret != &i)
    r.failed = true;
  return r;
}

std::string blanks(Src& s, bool at_least_one)
{
  static char const* const b[] = {"", " ", "\n", "\t", "  ", " \n ", "\r\n", "\v\f"};
  return b[at_least_one ? 1 + s.below(7) : s.below(8)];
}

Comp any(Src& s, RepInfo const& r)
{
  Comp v = gen_comp(s, r);
  if (s.below(6) == 5)
    v.d = gen_int(s, r);
  if (r.is_signed && s.below(24) == 23)
    (s.coin() ? v.n : v.d) = r.true_min;
  return v;
}

struct Grouping : std::numpunct<char> {
  std::string do_grouping() const override { return "\3"; }
  char do_thousands_sep() const override { return ','; }
};

// A sink for a limited number of characters.
struct Limited : std::streambuf {
  std::string text;
  std::size_t room;
  explicit Limited(std::size_t n) : room {n} {}
  int_type overflow(int_type ch) override
  {
    if (text.size() >= room || ch == EOF)
      return EOF;
    text += char(ch);
    return ch;
  }
};

void formatted(Ctx& c, Api const& api)
{
  Src& s = c.src;
  std::stringstream io;
  bool const grouping = s.below(4) == 3;
  if (grouping)
  {
    static std::locale const l(std::locale::classic(), new Grouping);
    io.imbue(l);
  }
  int const base = int(s.below(3));
  io.setf(base == 0 ? std::ios::dec : base == 1 ? std::ios::hex : std::ios::oct, std::ios::basefield);
  bool const showbase = s.coin(), automatic = showbase && s.coin();
  if (showbase)
    io.setf(std::ios::showbase);
  if (s.coin())
    io.setf(std::ios::uppercase);
  if (s.coin())
    io.setf(std::ios::showpos);
  if (s.coin())
    io.setf(std::ios::left, std::ios::adjustfield);
  int const n = 1 + int(s.below(4));
  std::vector<Comp> v;
  auto const flags = io.flags();
  for (int k = 0; k < n; ++k)
  {
    Comp x = any(s, api.r);
    if (base != 0 || x.n == api.r.true_min || x.d == api.r.true_min)
    { // negative numbers have no text in other bases
      x.n = x.n == api.r.true_min ? 5 : mag(x.n);
      x.d = x.d == api.r.true_min ? 3 : mag(x.d);
    }
    v.push_back(x);
    if (s.below(3) == 2)
      io.width(std::streamsize(s.below(30)));
    api.write_all(io, {x}, {k + 1 == n ? "" : " "});
  }
  std::string const text = io.str();
  char const* const bases[] = {"decimal", "hexadecimal", "octal"};
  c.note([&](auto& o) { o << "written " << bases[base] << (grouping ? ", grouped" : "") << ": " << text; });
  c.check(io.good() && io.flags() == flags, [&](auto& o) { o << "writing " << text << " changed the stream's flags"; });
  auto before = flags;
  if (automatic)
  {
    io.setf(std::ios::fmtflags(0), std::ios::basefield);
    before = io.flags();
  }
  for (int k = 0; k < n; ++k)
  {
    ReadResult const r = api.read(io);
    c.check(!r.failed && same(r.value, v[k]), [&](auto& o) {
      o << "reading " << k + 1 << " of the " << bases[base] << " text \"" << text << "\" gave "
        << (r.failed ? "a failure" : str(r.value)) << ", expected " << str(v[k]);
    });
  }
  c.check(io.flags() == before, [&](auto& o) { o << "reading \"" << text << "\" changed the stream's flags"; });
  c.check(io.peek() == EOF, [&](auto& o) { o << "text is left of \"" << text << "\""; });
  c.nontrivial();
  c.label("formatted");
}

void throwing(Ctx& c, Api const& api)
{
  Src& s = c.src;
  Comp const v = any(s, api.r);
  if (s.coin())
  { // output to a sink of limited size
    std::string const want = str(v);
    Limited sink(s.below(want.size() + 2));
    std::ostream o(&sink);
    bool const exceptions = s.coin();
    if (exceptions)
      o.exceptions(std::ios::failbit | std::ios::badbit);
    c.note([&](auto& t) {
      t << "writing " << want << " to " << sink.room << " characters" << (exceptions ? ", with exceptions" : "");
    });
    bool threw = false;
    try
    {
      api.write_all(o, {v}, {""});
    }
    catch (std::ios_base::failure const&)
    {
      threw = true;
    }
    bool const full = want.size() > sink.room;
    c.check(o.fail() == full && threw == (full && exceptions), [&](auto& t) {
      t << "writing " << want << " to " << sink.room << " characters "
        << (o.fail() ? "failed" : "did not fail") << (threw ? " with an exception" : "");
    });
    c.check(full || sink.text == want, [&](auto& t) {
      t << "writing " << want << " to " << sink.room << " characters wrote " << sink.text;
    });
    c.label("limited sink");
  }
  else
  {
    std::string text = str(v);
    bool good = true;
    switch (s.below(6))
    {
      default:
        break;
      case 2:
        text = str(v.n);
        good = false;
        break;
      case 3:
        text = str(v.n) + "/";
        good = false;
        break;
      case 4:
        text = "x" + text;
        good = false;
        break;
      case 5:
        text = "/" + str(v.d);
        good = false;
        break;
    }
    std::istringstream in(text + " ");
    in.exceptions(std::ios::failbit | std::ios::badbit);
    c.note([&](auto& t) { t << "reading \"" << text << "\" with exceptions"; });
    bool threw = false;
    ReadResult r {};
    try
    {
      r = api.read(in);
    }
    catch (std::ios_base::failure const&)
    {
      threw = true;
    }
    c.check(threw == !good, [&](auto& t) {
      t << "reading \"" << text << "\" with exceptions " << (threw ? "threw" : "did not throw");
    });
    c.check(!good || same(r.value, v), [&](auto& t) {
      t << "reading \"" << text << "\" with exceptions gave " << str(r.value);
    });
    c.label("exceptions");
  }
  c.nontrivial();
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  switch (s.below(6))
  {
    default:
    { // write a sequence, read it back
      std::vector<Comp> v;
      std::vector<std::string> sep;
      std::string want;
      int const n = 1 + int(s.below(5));
      for (int k = 0; k < n; ++k)
      {
        v.push_back(any(s, api.r));
        sep.push_back(k + 1 == n && s.coin() ? "" : blanks(s, true));
        want += str(v.back()) + sep.back();
      }
      std::stringstream io;
      api.write_all(io, v, sep);
      std::string const text = io.str();
      c.note([&](auto& o) { o << "written " << text; });
      c.check(text == want, [&](auto& o) { o << "wrote \"" << text << "\", expected \"" << want << "\""; });
      std::size_t pos = 0;
      for (int k = 0; k < n; ++k)
      {
        ReadResult const r = api.read(io);
        c.check(!r.failed && same(r.value, v[k]), [&](auto& o) {
          o << "reading " << k + 1 << " of \"" << text << "\" gave "
            << (r.failed ? "a failure" : str(r.value)) << ", expected " << str(v[k]);
        });
        pos += str(v[k]).size();
        bool const end = pos >= text.size();
        int const next = io.peek();
        c.check(end ? next == EOF : next == int((unsigned char)text[pos]), [&](auto& o) {
          o << "after reading " << k + 1 << " of \"" << text << "\" the next character is " << next;
        });
        if (end)
          break;
        pos += sep[k].size();
      }
      c.nontrivial(n > 1 || v[0].d != 1);
      c.label("sequence");
      break;
    }
    case 2:
    { // blanks around the numbers
      Comp const v = any(s, api.r);
      std::string const tail = s.coin() ? "" : s.coin() ? " 17/3" : "/5";
      std::string const t = blanks(s, false) + (v.n >= 0 && s.below(6) == 5 ? "+" : "") + str(v.n)
                            + blanks(s, false) + "/" + blanks(s, false) + str(v.d) + tail;
      c.note([&](auto& o) { o << "reading \"" << t << "\""; });
      std::istringstream in(t);
      ReadResult const r = api.read(in);
      c.check(!r.failed && same(r.value, v), [&](auto& o) {
        o << "reading \"" << t << "\" gave " << (r.failed ? "a failure" : str(r.value));
      });
      int const next = in.peek();
      c.check(tail.empty() ? next == EOF : next == tail[0], [&](auto& o) {
        o << "after reading \"" << t << "\" the next character is " << next;
      });
      c.nontrivial();
      c.label("blanks");
      break;
    }
    case 4:
      formatted(c, api);
      break;
    case 5:
      if (s.below(8) == 7) // throwing takes time
        throwing(c, api);
      else
        formatted(c, api);
      break;
    case 3:
    { // malformed
      Comp const v = any(s, api.r);
      std::string t;
      i128 const big = api.r.max;
      auto huge = [&]() -> std::string {
        switch (s.below(4))
        {
          case 0:
            return pbt::show_u(u128(big) + 1 + s.below(10));
          case 1:
            return pbt::show_u(u128(big) * 10 + 9);
          case 2:
            return pbt::show_u(u128(big)) + pbt::show_u(u128(big));
          default:
            if (api.r.is_signed)
              return "-" + pbt::show_u(u128(big) + 2 + s.below(10));
            return pbt::show_u(u128(big) + 1);
        }
      };
      std::string const b = blanks(s, false);
      switch (s.below(9))
      {
        case 0:
          t = b;
          break;
        case 1: // no slash
          t = b + str(v.n) + blanks(s, false);
          break;
        case 2:
          t = b + str(v.n) + " " + str(v.d);
          break;
        case 3: // no denominator
          t = b + str(v.n) + "/" + blanks(s, false);
          break;
        case 4: // no numerator
          t = b + "/" + str(v.d);
          break;
        case 5:
          t = b + huge() + "/" + str(v.d);
          break;
        case 6:
          t = b + str(v.n) + "/" + huge();
          break;
        case 7:
          t = b + std::string(1, "abxyz%/.*"[s.below(9)]) + str(v.n) + "/" + str(v.d);
          break;
        case 8:
          t = b + str(v.n) + "/" + std::string(1, "abxyz%/.*"[s.below(9)]) + str(v.d);
          break;
      }
      c.note([&](auto& o) { o << "reading malformed \"" << t << "\""; });
      std::istringstream in(t);
      ReadResult const r = api.read(in);
      c.check(r.failed, [&](auto& o) {
        o << "reading \"" << t << "\" gave " << str(r.value) << " and no failure";
      });
      c.nontrivial();
      c.label("malformed");
      break;
    }
  }
}

template <typename F, typename T>
void add(std::string name, double w)
{
  auto* a = new Api {name + " " + rep_name<T>(), rep_info<T>(), &write<F, T>, &write_all<F, T>, &read<F, T>};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

template <typename T>
void add_rep(double w)
{
  add<ieme::fraction<T>, T>("fraction", 2 * w);
  add<ieme::fraction<T, pol::at<2>::ops>, T>("fast fraction", w);
  add<ieme::raw_fraction<T>, T>("raw_fraction", w);
}

PBT_REGISTER([] {
  pbt::rule()
    = "sequences of up to five fractions (also undefined and extreme ones) written and "
      "read back with the position checked after each, blanks around the numbers, and "
      "nine kinds of malformed input, all bases, paddings, signs and digit groupings, sinks of "
      "limited size and streams that throw; non-trivial: more than a single whole number";
  add_rep<int>(2);
  add_rep<long>(2);
  add_rep<long long>(2);
  add_rep<unsigned>(1);
  add_rep<unsigned long>(1);
  add_rep<unsigned long long>(1);
});

} // namespace
