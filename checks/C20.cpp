// C20: mixed numbers keep their value and stay in canonical form.
#include "policies.hpp"

#include <ieme/mixed_number.hpp>

#include <array>
#include <memory>

using namespace ref;

namespace {

struct Mixed {
  i128 w = 0;
  Comp f = {0, 1};
};

std::string show(Mixed const& m) { return str(m.w) + " + " + str(m.f); }

struct Machine {
  virtual ~Machine() = default;
  virtual Mixed get(int i) const = 0;
  virtual void set(int i, i128 w, Comp const& f) = 0; // whole and fractional part
  virtual void set_whole(int i, i128 w) = 0;
  // from a fraction: of the fractional representation, of the whole one (other
  // policy: explicit)
  virtual void set_fraction(int i, Comp const& f, int how) = 0;
  virtual Comp as_fraction(int i, bool implicit) const = 0;
  virtual void trip(int i, int j) = 0; // mi = mixed(mj.as_fraction())
  virtual void negate(int i, int j) = 0;
  virtual void copy(int i, int j, bool plus) = 0;
  virtual Mixed add(int i, int j) const = 0;      // mi + mj
  virtual void store_add(int k, int i, int j) = 0; // mk = mi + mj
  virtual Mixed add_fraction(int i, Comp const& f, bool left, bool whole_rep) const = 0;
  virtual Mixed add_whole(int i, i128 w, bool left) const = 0;
  virtual void store_add_whole(int k, int i, i128 w, bool left) = 0;
  // with a whole or mixed number of other representations
  virtual Mixed add_other_whole(int i, i128 w, bool left) const = 0;
  virtual Mixed other(Mixed const& v) const = 0;
  virtual Mixed add_other(int i, Mixed const& v, bool left) const = 0;
};

template <typename T>
using other_width
  = std::conditional_t<std::is_signed_v<T>,
                       std::conditional_t<sizeof(T) == sizeof(int), long, int>,
                       std::conditional_t<sizeof(T) == sizeof(int), unsigned long, unsigned>>;

// The arithmetic of the library on fractional parts, to follow the values it
// works with.
struct Arith {
  Comp (*minus_whole)(Comp const&, i128);
  Comp (*whole_plus)(i128, Comp const&);
  Comp (*plus)(Comp const&, Comp const&);
};

template <typename T, typename O>
Arith arith()
{
  return {[](Comp const& v, i128 w) { return pol::comp(pol::make<T, O>(v) - T(w)); },
          [](i128 w, Comp const& v) { return pol::comp(T(w) + pol::make<T, O>(v)); },
          [](Comp const& a, Comp const& b) {
            return pol::comp(pol::make<T, O>(a) + pol::make<T, O>(b));
          }};
}

template <typename W, typename T, typename O>
struct Impl final : Machine {
  using M = ieme::mixed_number<W, T, O>;
  using C = std::common_type_t<W, T>;
  using F = ieme::fraction<T, O>;
  using FW = ieme::fraction<W, O>;
  M m[3];
  template <typename X>
  static Mixed read(X const& x)
  {
    return {i128(x.whole()), pol::comp(x.fractional())};
  }
  Mixed get(int i) const override { return read(m[i]); }
  void set(int i, i128 w, Comp const& f) override { m[i] = M(W(w), pol::make<T, O>(f)); }
  void set_whole(int i, i128 w) override { m[i] = M(W(w)); }
  void set_fraction(int i, Comp const& f, int how) override
  {
    using Other = std::conditional_t<std::is_same_v<O, pol::at<2>::ops>, pol::at<0>::ops, pol::at<2>::ops>;
    if (how == 0)
      m[i] = pol::make<T, O>(f);
    else if (how == 1)
      m[i] = M(pol::make<C, O>(f));
    else
      m[i] = M(pol::make<T, Other>(f));
  }
  Comp as_fraction(int i, bool implicit) const override
  {
    if (implicit)
    {
      ieme::fraction<C, O> const f = m[i];
      return pol::comp(f);
    }
    return pol::comp(m[i].as_fraction());
  }
  void trip(int i, int j) override { m[i] = M(m[j].as_fraction()); }
  void negate(int i, int j) override { m[i] = -m[j]; }
  void copy(int i, int j, bool plus) override
  {
    if (plus)
      m[i] = +m[j];
    else
      m[i] = m[j];
  }
  Mixed add(int i, int j) const override { return read(m[i] + m[j]); }
  void store_add(int k, int i, int j) override { m[k] = m[i] + m[j]; }
  Mixed add_fraction(int i, Comp const& f, bool left, bool whole_rep) const override
  {
    if (whole_rep)
      return left ? read(pol::make<W, O>(f) + m[i]) : read(m[i] + pol::make<W, O>(f));
    return left ? read(pol::make<T, O>(f) + m[i]) : read(m[i] + pol::make<T, O>(f));
  }
  Mixed add_whole(int i, i128 w, bool left) const override
  {
    return left ? read(W(w) + m[i]) : read(m[i] + W(w));
  }
  void store_add_whole(int k, int i, i128 w, bool left) override
  {
    if (left)
      m[k] = W(w) + m[i];
    else
      m[k] = m[i] + W(w);
  }
  using X = other_width<W>;
  using Y = other_width<T>;
  using N = ieme::mixed_number<X, Y, O>;
  Mixed add_other_whole(int i, i128 w, bool left) const override
  {
    return left ? read(X(w) + m[i]) : read(m[i] + X(w));
  }
  Mixed other(Mixed const& v) const override { return read(N(X(v.w), pol::make<Y, O>(v.f))); }
  Mixed add_other(int i, Mixed const& v, bool left) const override
  {
    N const n(X(v.w), pol::make<Y, O>(v.f));
    return left ? read(n + m[i]) : read(m[i] + n);
  }
};

struct Api {
  std::string name;
  PolicyInfo p;
  RepInfo w, f, c;
  bool w_wide, f_wide;
  Arith af, aw, ac; // in the fractional, whole and common representation
  Machine* (*make)();
  // the other representations, and the common ones with them
  RepInfo x, y, wx, fy;
  Arith ay, afy;
};

bool fits(RepInfo const& r, Comp const& c) { return r.fits(c.n) && r.fits(c.d); }

// Are the values of normalising w + f in range, in representations rw and rf?
bool can_fix(PolicyInfo const& p, RepInfo const& rw, RepInfo const& rf, Arith const& ar, i128 w, Comp f)
{
  if (!rw.fits(w) || !fits(rf, f))
    return false;
  if (f.d == 0)
    return true;
  if (mag(f.n) >= mag(f.d))
  {
    i128 const t = f.n / f.d;
    w += t;
    if (!rw.fits(w) || !working_fits(p, rf, MINUS, FR, f, {t, 1}))
      return false;
    f = ar.minus_whole(f, t);
    if (!fits(rf, f) || f.d == 0)
      return false;
  }
  int const sf = sgn(f.n) * sgn(f.d);
  if (!rw.is_signed && w == 0 && sf < 0)
    return false;
  if (w > 0 && sf < 0)
    return working_fits(p, rf, PLUS, RF, {1, 1}, f);
  if (w < 0 && sf > 0)
    return working_fits(p, rf, PLUS, RF, {-1, 1}, f);
  return true;
}

// The value as an exact rational; {0, 0}: undefined.
Comp value_of(Mixed const& m, bool& ok)
{
  return exact(PLUS, {m.w, 1}, m.f, ok);
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  std::unique_ptr<Machine> const m(api.make());
  std::array<Comp, 3> model;
  std::array<Mixed, 3> now;
  int interesting = 0;
  bool signs = false;
  char const* const names[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i)
  {
    model[i] = {0, 1};
    now[i] = m->get(i);
    c.check(now[i].w == 0 && now[i].f.n == 0 && now[i].f.d != 0,
            [&](auto& o) { o << "a default mixed number is " << show(now[i]); });
  }
  auto canonical = [&](Mixed const& v, Comp const& want, auto&& what) {
    if (want.d == 0)
    {
      c.check(v.f.d == 0, [&](auto& o) {
        what(o);
        o << " gave " << show(v) << ", expected an undefined number (" << api.name << ")";
      });
      return;
    }
    bool ok = v.f.d != 0;
    Comp got {0, 0};
    if (ok)
      got = value_of(v, ok);
    c.check(ok && cmp(got, want) == 0, [&](auto& o) {
      what(o);
      o << " gave " << show(v) << ", expected the value " << str(want) << " (" << api.name << ")";
    });
    c.check(mag(v.f.n) < mag(v.f.d), [&](auto& o) {
      what(o);
      o << " gave " << show(v) << ": the fractional part is improper (" << api.name << ")";
    });
    c.check(sgn(v.w) * sgn(v.f.n) * sgn(v.f.d) >= 0, [&](auto& o) {
      what(o);
      o << " gave " << show(v) << ": the signs differ (" << api.name << ")";
    });
  };
  auto settle = [&](int target, Comp const& want, auto&& what) {
    for (int i = 0; i < 3; ++i)
    {
      Mixed const v = m->get(i);
      if (i != target)
        c.check(v.w == now[i].w && same(v.f, now[i].f), [&](auto& o) {
          what(o);
          o << " changed " << names[i] << " from " << show(now[i]) << " to " << show(v);
        });
      now[i] = v;
    }
    canonical(now[target], want, what);
    model[target] = want;
    // conversion to a fraction
    if (want.d == 0 || (fits(api.c, now[target].f) && api.c.fits(now[target].w)
                        && working_fits(api.p, api.c, PLUS, RF, {now[target].w, 1}, now[target].f)))
    {
      for (int k = 0; k < 2; ++k)
      {
        Comp const f = m->as_fraction(target, k != 0);
        c.check(want.d == 0 ? f.d == 0 : f.d != 0 && cmp(f, want) == 0, [&](auto& o) {
          what(o);
          o << ", as a fraction, gave " << str(f) << ", expected "
            << (want.d ? str(want) : "undefined") << " (" << api.name << ")";
        });
      }
      c.label("as fraction");
    }
  };
  auto small_comp = [&](RepInfo const& r) {
    Comp v = {i128(s.below(60)), i128(1 + s.below(20))};
    if (r.is_signed)
    {
      if (s.coin())
        v.n = -v.n;
      if (s.below(3) == 2)
        v.d = -v.d;
    }
    return v;
  };
  auto construct = [&](int i) {
    i128 w = s.coin() ? i128(s.below(20)) : gen_mag(s, api.w.max);
    if (api.w.is_signed && s.coin())
      w = -w;
    Comp f = s.coin() ? small_comp(api.f) : gen_comp(s, api.f);
    if (s.below(24) == 23)
      f.d = 0;
    bool ok = true;
    switch (s.below(4))
    {
      default:
      {
        for (int k = 0; k < 140 && !can_fix(api.p, api.w, api.f, api.af, w, f); ++k)
        {
          if (mag(w) > mag(f.n) && mag(w) > mag(f.d))
            w /= 2;
          else if (mag(f.n) > mag(f.d))
            f.n /= 2;
          else if (mag(f.d) > 1)
            f.d /= 2;
          else
            f.n = w = 0;
          if (!api.w.is_signed && k > 130)
            f = {0, 1};
        }
        if (!can_fix(api.p, api.w, api.f, api.af, w, f))
          return;
        Comp const want = exact(PLUS, {w, 1}, f, ok);
        auto what = [&](auto& o) { o << names[i] << " = mixed(" << str(w) << ", " << str(f) << ")"; };
        c.note(what);
        m->set(i, w, f);
        signs = signs || (w != 0 && sgn(w) * sgn(f.n) * sgn(f.d) < 0);
        settle(i, want, what);
        break;
      }
      case 2:
      {
        auto what = [&](auto& o) { o << names[i] << " = mixed(" << str(w) << ")"; };
        c.note(what);
        m->set_whole(i, w);
        settle(i, {w, 1}, what);
        break;
      }
      case 3:
      {
        int const how = int(s.below(3));
        RepInfo const& r = how == 1 ? api.c : api.f;
        Arith const& ar = how == 1 ? api.ac : api.af;
        auto dom = [&] {
          if (!fits(r, f))
            return false;
          if (f.d == 0)
            return true;
          i128 const t = f.n / f.d;
          if (!api.w.fits(t) || !r.fits(t) || !working_fits(api.p, r, MINUS, FR, f, {t, 1}))
            return false;
          Comp const rest = ar.minus_whole(f, t);
          if (!fits(r, rest) || !fits(api.f, rest))
            return false;
          return api.w.is_signed || sgn(f.n) * sgn(f.d) >= 0;
        };
        for (int k = 0; k < 140 && !dom(); ++k)
          if (mag(f.n) > mag(f.d))
            f.n /= 2;
          else if (mag(f.d) > 1)
            f.d /= 2;
        if (!dom())
          return;
        auto what = [&](auto& o) {
          o << names[i] << " = mixed(" << str(f) << ")" << (how == 1 ? " (common rep)" : how == 2 ? " (other policy)" : "");
        };
        c.note(what);
        m->set_fraction(i, f, how);
        settle(i, f.d ? lowest(f) : Comp {0, 0}, what);
        if (f.d != 0)
          c.check(now[i].w == f.n / f.d, [&](auto& o) {
            what(o);
            o << " has the whole part " << str(now[i].w);
          });
        break;
      }
    }
  };
  // may mi + mj (of representations given) be computed
  auto can_add = [&](RepInfo const& rw, RepInfo const& rf, Arith const& ar, Mixed const& a, Mixed const& b) {
    if (!rw.fits(a.w) || !rw.fits(b.w) || !rw.fits(a.w + b.w) || !fits(rf, a.f) || !fits(rf, b.f))
      return false;
    if (a.f.d == 0 || b.f.d == 0)
      return true;
    if (!working_fits(api.p, rf, PLUS, FF, a.f, b.f))
      return false;
    return can_fix(api.p, rw, rf, ar, a.w + b.w, ar.plus(a.f, b.f));
  };
  int const init = 1 + int(s.below(3));
  for (int i = 0; i < init; ++i)
    construct(int(s.below(3)));
  int const steps = int(s.below(8));
  for (int k = 0; k < steps; ++k)
  {
    int const i = int(s.below(3)), j = int(s.below(3)), t = int(s.below(3));
    bool ok = true;
    switch (s.below(14))
    {
      default:
        construct(i);
        break;
      case 1:
      case 2:
      case 3:
      {
        if (!can_add(api.w, api.f, api.af, now[i], now[j]))
        {
          construct(s.coin() ? i : j);
          break;
        }
        Comp const want = exact(PLUS, model[i], model[j], ok);
        if (!ok)
          break;
        auto what = [&](auto& o) { o << names[t] << " = " << names[i] << " + " << names[j]; };
        c.note(what);
        canonical(m->add(i, j), want, what);
        m->store_add(t, i, j);
        settle(t, want, what);
        ++interesting;
        c.label("mixed + mixed");
        break;
      }
      case 4:
      case 5:
      { // a fraction
        bool const left = s.coin(), whole_rep = s.coin();
        RepInfo const& r = whole_rep ? api.w : api.f;
        Arith const& ar = whole_rep ? api.aw : api.af;
        // the result has representations common(W, r), common(F, r)
        RepInfo const rw = whole_rep ? api.w : api.c;
        RepInfo const rf = whole_rep ? api.c : api.f;
        Arith const& arf = whole_rep ? api.ac : api.af;
        Comp f = s.coin() ? small_comp(r) : gen_comp(s, r);
        if (s.below(24) == 23)
          f.d = 0;
        auto dom = [&] {
          if (!fits(r, f))
            return false;
          if (f.d == 0)
            return true;
          i128 const q = f.n / f.d;
          if (!working_fits(api.p, r, MINUS, FR, f, {q, 1}))
            return false;
          Comp const rest = ar.minus_whole(f, q);
          return fits(r, rest) && can_add(rw, rf, arf, now[i], {q, rest});
        };
        for (int n = 0; n < 140 && !dom(); ++n)
          if (mag(f.n) > mag(f.d))
            f.n /= 2;
          else if (mag(f.d) > 1)
            f.d /= 2;
        if (!dom())
        {
          construct(i);
          break;
        }
        Comp const want = exact(PLUS, model[i], f, ok);
        if (!ok)
          break;
        auto what = [&](auto& o) {
          if (left)
            o << str(f) << " + " << names[i];
          else
            o << names[i] << " + " << str(f);
          o << (whole_rep ? " (of the whole representation)" : "");
        };
        c.note(what);
        canonical(m->add_fraction(i, f, left, whole_rep), want, what);
        ++interesting;
        c.label("mixed + fraction");
        break;
      }
      case 6:
      case 7:
      {
        bool const left = s.coin();
        i128 w = s.coin() ? i128(s.below(20)) : gen_mag(s, api.w.max);
        if (api.w.is_signed && s.coin())
          w = -w;
        while (w != 0
               && (!api.w.fits(now[i].w + w) || !can_fix(api.p, api.w, api.f, api.af, now[i].w + w, now[i].f)))
          w /= 2;
        if (!can_fix(api.p, api.w, api.f, api.af, now[i].w + w, now[i].f))
        {
          construct(i);
          break;
        }
        Comp const want = exact(PLUS, model[i], {w, 1}, ok);
        if (!ok)
          break;
        auto what = [&](auto& o) {
          o << names[t] << " = ";
          if (left)
            o << str(w) << " + " << names[i];
          else
            o << names[i] << " + " << str(w);
        };
        c.note(what);
        canonical(m->add_whole(i, w, left), want, what);
        signs = signs || (now[i].f.n != 0 && now[i].w != 0 && sgn(now[i].w) != sgn(now[i].w + w));
        m->store_add_whole(t, i, w, left);
        settle(t, want, what);
        ++interesting;
        c.label("mixed + whole");
        break;
      }
      case 11:
      { // a whole number of another representation
        bool const left = s.coin();
        i128 w = s.coin() ? i128(s.below(20)) : gen_mag(s, api.x.max);
        if (api.x.is_signed && s.coin())
          w = -w;
        auto dom = [&] {
          return api.wx.fits(now[i].w + w)
                 && can_fix(api.p, api.wx, api.f, api.af, now[i].w + w, now[i].f);
        };
        while (w != 0 && !dom())
          w /= 2;
        if (!dom())
        {
          construct(i);
          break;
        }
        Comp const want = exact(PLUS, model[i], {w, 1}, ok);
        if (!ok)
          break;
        auto what = [&](auto& o) {
          if (left)
            o << str(w) << " + " << names[i];
          else
            o << names[i] << " + " << str(w);
          o << " (of another representation)";
        };
        c.note(what);
        canonical(m->add_other_whole(i, w, left), want, what);
        ++interesting;
        c.label("mixed + whole of another representation");
        break;
      }
      case 12:
      { // a mixed number of other representations
        bool const left = s.coin();
        Mixed v;
        v.w = s.coin() ? i128(s.below(20)) : gen_mag(s, api.x.max);
        if (api.x.is_signed && s.coin())
          v.w = -v.w;
        v.f = s.coin() ? small_comp(api.y) : gen_comp(s, api.y);
        if (s.below(24) == 23)
          v.f.d = 0;
        auto dom = [&] {
          return can_fix(api.p, api.x, api.y, api.ay, v.w, v.f)
                 && can_add(api.wx, api.fy, api.afy, now[i], m->other(v));
        };
        for (int n = 0; n < 160 && !dom(); ++n)
          if (mag(v.w) > mag(v.f.n) && mag(v.w) > mag(v.f.d))
            v.w /= 2;
          else if (mag(v.f.n) > mag(v.f.d))
            v.f.n /= 2;
          else if (mag(v.f.d) > 1)
            v.f.d /= 2;
          else
            v.f.n = v.w = 0;
        if (!dom())
        {
          construct(i);
          break;
        }
        Comp want = exact(PLUS, {v.w, 1}, v.f, ok);
        if (ok)
          want = exact(PLUS, model[i], want, ok);
        if (!ok)
          break;
        auto what = [&](auto& o) {
          if (left)
            o << "(" << show(v) << ", of other representations) + " << names[i];
          else
            o << names[i] << " + (" << show(v) << ", of other representations)";
        };
        c.note(what);
        canonical(m->add_other(i, v, left), want, what);
        ++interesting;
        c.label("mixed + mixed of other representations");
        break;
      }
      case 8:
      {
        if (!api.w.is_signed || !api.f.is_signed || now[j].w == api.w.true_min
            || !fits(api.f, now[j].f))
        {
          construct(j);
          break;
        }
        Comp want = model[j];
        want.n = -want.n;
        auto what = [&](auto& o) { o << names[i] << " = -" << names[j]; };
        c.note(what);
        m->negate(i, j);
        settle(i, want, what);
        ++interesting;
        c.label("negation");
        break;
      }
      case 9:
      {
        bool const plus = s.coin();
        Comp const want = model[j];
        auto what = [&](auto& o) { o << names[i] << " = " << (plus ? "+" : "") << names[j]; };
        c.note(what);
        m->copy(i, j, plus);
        settle(i, want, what);
        break;
      }
      case 10:
      { // to a fraction and back
        Mixed const& v = now[j];
        bool dom = v.f.d == 0;
        if (!dom && fits(api.c, v.f) && api.c.fits(v.w)
            && working_fits(api.p, api.c, PLUS, RF, {v.w, 1}, v.f))
        {
          Comp const f = m->as_fraction(j, false);
          if (fits(api.c, f) && f.d != 0)
          {
            i128 const q = f.n / f.d;
            if (working_fits(api.p, api.c, MINUS, FR, f, {q, 1}))
            {
              Comp const rest = api.ac.minus_whole(f, q);
              dom = fits(api.c, rest) && fits(api.f, rest) && api.w.fits(q);
            }
          }
        }
        if (!dom)
        {
          construct(j);
          break;
        }
        Comp const want = model[j];
        i128 const w = now[j].w;
        auto what = [&](auto& o) { o << names[i] << " = mixed(" << names[j] << ".as_fraction())"; };
        c.note(what);
        m->trip(i, j);
        settle(i, want, what);
        if (want.d != 0)
          c.check(now[i].w == w, [&](auto& o) {
            what(o);
            o << " has the whole part " << str(now[i].w) << ", expected " << str(w);
          });
        ++interesting;
        c.label("round trip");
        break;
      }
    }
  }
  bool proper = false, undefined = false;
  for (auto const& v : now)
  {
    proper = proper || (v.f.n != 0 && v.w != 0);
    undefined = undefined || v.f.d == 0;
  }
  c.nontrivial(proper || interesting > 1);
  c.label_if(signs, "opposite signs normalised");
  c.label_if(undefined, "undefined");
}

template <typename W, typename T, typename P>
void add(double weight)
{
  using O = typename P::ops;
  using C = std::common_type_t<W, T>;
  using X = other_width<W>;
  using Y = other_width<T>;
  using WX = std::common_type_t<W, X>;
  using TY = std::common_type_t<T, Y>;
  auto* a = new Api {P::info().name + " " + rep_name<W>() + " " + rep_name<T>(), P::info(),
                     rep_info<W>(), rep_info<T>(), rep_info<C>(), false, false,
                     arith<T, O>(), arith<W, O>(), arith<C, O>(),
                     []() -> Machine* { return new Impl<W, T, O>; },
                     rep_info<X>(), rep_info<Y>(), rep_info<WX>(), rep_info<TY>(),
                     arith<Y, O>(), arith<TY, O>()};
  pbt::add(a->name, weight, [a](Ctx& c) { body(c, *a); });
}

PBT_REGISTER([] {
  pbt::rule()
    = "histories of up to 7 operations on three mixed numbers (construction from whole "
      "and fraction, from fractions, sums with mixed numbers, fractions and integers, "
      "negation, copies, round trips through fractions), values in range throughout; "
      "non-trivial: a number with a whole and a fractional part, or two operations";
  using P = pol::at<PART>;
  add<int, int, P>(3);
  add<long, long, P>(2);
  add<long, int, P>(1);
  add<int, long, P>(1);
  add<long long, long long, P>(1);
  add<unsigned, unsigned, P>(1);
});

} // namespace
