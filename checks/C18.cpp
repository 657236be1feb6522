// C18: hashes are consistent with equality.
#include "policies.hpp"

#include <ieme/hash.hpp>

#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace ref;

namespace {

struct Api {
  std::string name;
  RepInfo r;
  PolicyInfo p;
  std::size_t (*native)(Comp const&);
  std::size_t (*standard)(Comp const&);
  std::size_t (*raw)(Comp const&);
  std::size_t (*raw_standard)(Comp const&);
  // mixed numbers: whole and fraction
  std::size_t (*mixed)(i128, Comp const&, bool standard);
  bool (*kept)(Comp const&);
  std::size_t (*set_size)(std::vector<Comp> const&, std::vector<Comp> const& lookups, bool& found);
  bool (*map_ok)(std::vector<Comp> const&, std::string& message);
};

template <typename T, typename O>
struct Impl {
  using F = ieme::fraction<T, O>;
  using R = ieme::raw_fraction<T>;
  using M = ieme::mixed_number<T, T, O>;
  static std::size_t native(Comp const& v) { return ieme::hash(pol::make<T, O>(v)); }
  static std::size_t standard(Comp const& v) { return std::hash<F>()(pol::make<T, O>(v)); }
  static std::size_t raw(Comp const& v) { return ieme::hash(R(T(v.n), T(v.d))); }
  static std::size_t raw_standard(Comp const& v) { return std::hash<R>()(R(T(v.n), T(v.d))); }
  static std::size_t mixed(i128 w, Comp const& v, bool standard)
  {
    M const m(T(w), pol::make<T, O>(v));
    return standard ? std::hash<M>()(m) : ieme::hash(m);
  }
  static bool kept(Comp const& v)
  {
    F const f = pol::make<T, O>(v);
    ieme::hash(f);
    std::hash<F>()(f);
    return pol::is(f, v);
  }
  static std::size_t set_size(std::vector<Comp> const& in, std::vector<Comp> const& look, bool& found)
  {
    std::unordered_set<F> s;
    for (auto const& v : in)
      s.insert(pol::make<T, O>(v));
    found = true;
    for (auto const& v : look)
      found = found && s.count(pol::make<T, O>(v)) == 1;
    return s.size();
  }
  static bool map_ok(std::vector<Comp> const& in, std::string& message)
  {
    std::unordered_map<F, int> m;
    std::map<std::pair<i128, i128>, int> model;
    for (auto const& v : in)
    {
      ++m[pol::make<T, O>(v)];
      Comp const l = lowest(v);
      ++model[{l.n, l.d}];
    }
    if (m.size() != model.size())
    {
      message = std::to_string(m.size()) + " entries for " + std::to_string(model.size()) + " values";
      return false;
    }
    for (auto const& [f, n] : m)
    {
      Comp const l = lowest(pol::comp(f));
      if (model[{l.n, l.d}] != n)
      {
        message = "entry " + str(l) + " counted " + std::to_string(n) + " times";
        return false;
      }
    }
    return true;
  }
};

// Another form of the same value within [-max, max].
Comp other_form(Src& s, Comp const& v, RepInfo const& r, i128 max)
{
  Comp w = lowest(v);
  i128 const big = mag(w.n) > mag(w.d) ? i128(mag(w.n)) : i128(mag(w.d));
  i128 k = 1 + gen_mag(s, max / big - 1);
  if (r.is_signed && s.coin())
    k = -k;
  return {w.n * k, w.d * k};
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  switch (s.below(8))
  {
    default:
    { // equal fractions, and any value at all
      Comp v = gen_comp(s, api.r);
      Comp const w = other_form(s, v, api.r, api.r.max);
      c.note([&](auto& o) { o << str(v) << " = " << str(w); });
      std::size_t const h = api.native(v);
      c.check(api.kept(v), [&](auto& o) { o << "hashing changed " << str(v); });
      c.check(h == api.native(w) && h == api.standard(v) && h == api.standard(w), [&](auto& o) {
        o << "equal fractions " << str(v) << " and " << str(w) << " hash to " << h << ", "
          << api.native(w) << " (ieme::hash), " << api.standard(v) << ", " << api.standard(w)
          << " (std::hash) (" << api.name << ")";
      });
      c.check(api.raw(v) == api.raw(v) && api.raw_standard(v) == api.raw(v), [&](auto& o) {
        o << "the hash of the raw fraction " << str(v) << " is not unique (" << api.name << ")";
      });
      c.nontrivial(!same(v, w));
      c.label("equal forms");
      break;
    }
    case 4:
    { // any components, also undefined and extreme ones
      Comp v = {gen_int(s, api.r), gen_int(s, api.r)};
      if (s.coin())
        v.d = 0;
      if (s.below(4) == 3)
        v.n = api.r.true_min;
      if (s.below(4) == 3)
        v.d = api.r.true_min;
      c.note([&](auto& o) { o << "hash of " << str(v); });
      // the most negative value has no magnitude: such a fraction has no lowest terms
      bool const raw_only = api.r.is_signed && (v.n == api.r.true_min || v.d == api.r.true_min);
      std::size_t const h = raw_only ? 0 : api.native(v);
      c.check((raw_only || h == api.standard(v)) && api.raw(v) == api.raw_standard(v), [&](auto& o) {
        o << "the hashes of " << str(v) << " differ (" << api.name << ")";
      });
      c.check(raw_only || api.kept(v), [&](auto& o) { o << "hashing changed " << str(v); });
      c.nontrivial(v.d == 0);
      c.label("any components");
      break;
    }
    case 5:
    { // mixed numbers with equal parts
      i128 const half = i128(isqrt(u128(api.r.max)) / 2);
      RepInfo small = api.r;
      small.max = half;
      small.lo = api.r.is_signed ? -half : 0;
      Comp v = gen_comp(s, small);
      if (mag(v.n) >= mag(v.d))
        v.n %= v.d;
      i128 const w = gen_mag(s, api.r.max / 2) * (sgn(v.n) * sgn(v.d) < 0 ? -1 : 1);
      Comp const u = other_form(s, v, api.r, half);
      c.note([&](auto& o) { o << "mixed " << str(w) << " + " << str(v) << " and " << str(w) << " + " << str(u); });
      std::size_t const h = api.mixed(w, v, false);
      c.check(h == api.mixed(w, u, false) && h == api.mixed(w, v, true) && h == api.mixed(w, u, true),
              [&](auto& o) {
                o << "mixed numbers " << str(w) << " + " << str(v) << " and " << str(w) << " + "
                  << str(u) << " hash differently (" << api.name << ")";
              });
      c.nontrivial(!same(u, v));
      c.label("mixed numbers");
      break;
    }
    case 6:
    { // containers
      i128 const lim = i128(isqrt(u128(api.r.max)) / 4);
      RepInfo small = api.r;
      small.max = lim;
      small.lo = api.r.is_signed ? -lim : 0;
      std::vector<Comp> in, look;
      std::set<std::pair<i128, i128>> values;
      int const n = 1 + int(s.below(12));
      for (int k = 0; k < n; ++k)
      {
        Comp v = k && s.coin() ? other_form(s, in[s.below(in.size())], small, lim) : gen_comp(s, small);
        in.push_back(v);
        Comp const l = lowest(v);
        values.insert({l.n, l.d});
      }
      for (auto const& v : in)
        look.push_back(other_form(s, v, small, lim));
      c.note([&](auto& o) {
        for (auto const& v : in)
          o << str(v) << " ";
      });
      bool found;
      std::size_t const size = api.set_size(in, look, found);
      c.check(size == values.size(), [&](auto& o) {
        o << "a set of " << n << " fractions with " << values.size() << " values has " << size
          << " entries (" << api.name << ")";
      });
      c.check(found, [&](auto& o) { o << "a value is not found in another form (" << api.name << ")"; });
      std::string message;
      bool const ok = api.map_ok(in, message);
      c.check(ok, [&](auto& o) { o << "unordered_map: " << message << " (" << api.name << ")"; });
      c.nontrivial(n > 1);
      c.label("containers");
      break;
    }
    case 7:
    { // spread: a run of distinct values
      if (s.below(100))
      {
        c.label("skipped");
        c.discard();
      }
      int const shape = int(s.below(3));
      i128 step = 1;
      if (shape < 2)
        for (auto n = s.below(64); n > 0 && step * 2 * 1024 < api.r.max / 128; --n)
          step *= 2;
      i128 const start = 1 + gen_mag(s, api.r.max / 64 - 1024 * step);
      std::set<std::size_t> hashes, raws;
      for (int k = 0; k < 1024; ++k)
      {
        Comp const v = shape == 0   ? Comp {start + k * step, 1}
                       : shape == 1 ? Comp {1, start + k * step}
                                    : Comp {start + k, start + k + 1};
        hashes.insert(api.native(v));
        raws.insert(api.raw(v));
      }
      c.note([&](auto& o) { o << "1024 distinct values from " << str(start) << ", step " << str(step) << ", shape " << shape; });
      c.check(hashes.size() > 128 && raws.size() > 128, [&](auto& o) {
        o << "1024 distinct values have " << hashes.size() << " hashes (" << api.name << ")";
      });
      c.nontrivial();
      c.label("spread");
      break;
    }
  }
}

template <typename T, typename P>
void add(double w)
{
  using I = Impl<T, typename P::ops>;
  auto* a = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), P::info(),
                     &I::native, &I::standard, &I::raw, &I::raw_standard, &I::mixed, &I::kept,
                     &I::set_size, &I::map_ok};
  pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
}

template <typename T>
void add_rep(double w)
{
  add<T, pol::at<0>>(w);
  add<T, pol::at<2>>(w);
  add<T, pol::at<1>>(w);
  add<T, pol::at<12>>(w);
}

PBT_REGISTER([] {
  pbt::rule()
    = "pairs of equal fractions in different forms, arbitrary components (undefined, "
      "most negative), mixed numbers with equal parts, unordered containers against a "
      "model, runs of 1024 distinct values; non-trivial: two different forms of a value, "
      "or an undefined one, or a container with several entries";
#if PART == 0
  add_rep<int>(2);
#elif PART == 1
  add_rep<long>(2);
#elif PART == 2
  add_rep<long long>(2);
#elif PART == 3
  add_rep<unsigned>(1);
#elif PART == 4
  add_rep<unsigned long>(1);
#else
  add_rep<unsigned long long>(1);
#endif
});

} // namespace
