// C06: any history of updates tracks the exact rational values.
#include "policies.hpp"

#include <array>
#include <memory>

using namespace ref;

namespace {

enum Whole { W_OWN_NUM, W_OWN_DEN, W_OTHER_NUM, W_INT, W_LONG, W_LLONG, W_UINT, W_ULONG, W_COUNT };

struct Machine {
  virtual ~Machine() = default;
  virtual Comp get(int i) const = 0;
  virtual bool assign(int i, Comp const& v) = 0;     // from a fraction
  virtual bool copy(int i, int j) = 0;               // from a variable
  virtual bool compound(int op, int i, int j) = 0;   // vi op= vj
  virtual bool compound_whole(int op, int i, int kind, int j, i128 w) = 0;
  virtual Comp binary(int op, int i, int j) = 0;     // vi op vj
  virtual bool store_binary(int op, int k, int i, int j) = 0; // vk = vi op vj
  virtual bool store_whole(int op, int k, int i, i128 w, bool left) = 0;
  virtual Comp whole_result(int op, int i, i128 w, bool left) = 0;
  virtual bool negate(int i, int j) = 0; // vi = -vj
  virtual bool chain(int op, int op2, int i, int j, int k) = 0; // (vi op= vj) op2= vk
};

template <typename A, typename B>
auto& apply_compound(int op, A& a, B const& b)
{
  switch (op)
  {
    case PLUS:
      return a += b;
    case MINUS:
      return a -= b;
    case TIMES:
      return a *= b;
    case DIVIDES:
      return a /= b;
    default:
      return a %= b;
  }
}

template <typename A, typename B>
auto apply(int op, A const& a, B const& b)
{
  switch (op)
  {
    case PLUS:
      return a + b;
    case MINUS:
      return a - b;
    case TIMES:
      return a * b;
    case DIVIDES:
      return a / b;
    default:
      return a % b;
  }
}

template <typename L, typename R, typename Ops>
struct Impl final : Machine {
  using FL = ieme::fraction<L, Ops>;
  using FR_ = ieme::fraction<R, Ops>;
  FL l[2];
  FR_ r[2];

  // Calls f with the variable.
  template <typename F>
  auto on(int i, F f)
  {
    return i < 2 ? f(l[i]) : f(r[i - 2]);
  }
  Comp get(int i) const override
  {
    return i < 2 ? pol::comp(l[i]) : pol::comp(r[i - 2]);
  }
  bool assign(int i, Comp const& v) override
  {
    return on(i, [&](auto& x) {
      using T = typename std::remove_reference_t<decltype(x)>::rep_type;
      auto& ret = x = pol::make<T, Ops>(v);
      return &ret == &x;
    });
  }
  bool copy(int i, int j) override
  {
    return on(i, [&](auto& x) {
      return on(j, [&](auto const& y) {
        auto& ret = x = y;
        return &ret == &x;
      });
    });
  }
  bool compound(int op, int i, int j) override
  {
    return on(i, [&](auto& x) {
      return on(j, [&](auto& y) {
        auto& ret = apply_compound(op, x, y);
        return static_cast<void const*>(&ret) == static_cast<void const*>(&x);
      });
    });
  }
  bool chain(int op, int op2, int i, int j, int k) override
  {
    return on(i, [&](auto& x) {
      return on(j, [&](auto& y) {
        return on(k, [&](auto& z) {
          auto& ret = apply_compound(op2, apply_compound(op, x, y), z);
          return static_cast<void const*>(&ret) == static_cast<void const*>(&x);
        });
      });
    });
  }
  bool compound_whole(int op, int i, int kind, int j, i128 w) override
  {
    return on(i, [&](auto& x) {
      auto go = [&](auto const& v) {
        auto& ret = apply_compound(op, x, v);
        return static_cast<void const*>(&ret) == static_cast<void const*>(&x);
      };
      switch (kind)
      {
        case W_OWN_NUM:
          return go(x.num());
        case W_OWN_DEN:
          return go(x.den());
        case W_OTHER_NUM:
          return on(j, [&](auto& y) { return go(y.numerator()); });
        case W_INT:
          return go(int(w));
        case W_LONG:
          return go(long(w));
        case W_LLONG:
          return go((long long)(w));
        case W_UINT:
          return go(unsigned(w));
        default:
          return go((unsigned long)(w));
      }
    });
  }
  Comp binary(int op, int i, int j) override
  {
    return on(i, [&](auto& x) {
      return on(j, [&](auto& y) { return pol::comp(apply(op, x, y)); });
    });
  }
  bool store_binary(int op, int k, int i, int j) override
  {
    return on(k, [&](auto& z) {
      return on(i, [&](auto& x) {
        return on(j, [&](auto& y) {
          auto& ret = z = apply(op, x, y);
          return &ret == &z;
        });
      });
    });
  }
  Comp whole_result(int op, int i, i128 w, bool left) override
  {
    return on(i, [&](auto& x) {
      using T = typename std::remove_reference_t<decltype(x)>::rep_type;
      return left ? pol::comp(apply(op, T(w), x)) : pol::comp(apply(op, x, T(w)));
    });
  }
  bool store_whole(int op, int k, int i, i128 w, bool left) override
  {
    return on(k, [&](auto& z) {
      return on(i, [&](auto& x) {
        using T = typename std::remove_reference_t<decltype(x)>::rep_type;
        if (left)
          z = apply(op, T(w), x);
        else
          z = apply(op, x, T(w));
        return true;
      });
    });
  }
  bool negate(int i, int j) override
  {
    return on(i, [&](auto& x) {
      return on(j, [&](auto& y) {
        auto& ret = x = -y;
        return &ret == &x;
      });
    });
  }
};

struct Api {
  PolicyInfo p;
  RepInfo rep[2]; // of variables 0, 1 and 2, 3
  RepInfo common;
  Machine* (*make)();
};

bool fits_rep(Comp const& c, RepInfo const& r) { return r.fits(c.n) && r.fits(c.d); }

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  std::unique_ptr<Machine> m(api.make());
  auto rep = [&](int i) -> RepInfo const& { return api.rep[i / 2]; };
  // model: the exact values in lowest terms; {0, 0} is undefined
  std::array<Comp, 4> model;
  std::array<Comp, 4> stored;
  for (int i = 0; i < 4; ++i)
  {
    model[i] = {0, 1};
    stored[i] = m->get(i);
    c.check(same(lowest(stored[i]), model[i]), [&](auto& o) {
      o << "a default-constructed fraction is " << str(stored[i]);
    });
  }
  char const* const names[] = {"a", "b", "x", "y"};
  int interesting = 0;
  auto settle = [&](int target, Comp const& want, bool same_object, auto&& what) {
    for (int i = 0; i < 4; ++i)
    {
      Comp const now = m->get(i);
      if (i != target)
        c.check(same(now, stored[i]), [&](auto& o) {
          what(o);
          o << " changed " << names[i] << " from " << str(stored[i]) << " to " << str(now);
        });
      else
        c.check(want.d == 0 ? now.d == 0 : now.d != 0 && cmp(now, want) == 0, [&](auto& o) {
          what(o);
          o << " left " << names[i] << " = " << str(now) << ", expected "
            << (want.d == 0 ? "undefined" : str(want)) << " (" << api.p.name << ")";
        });
      stored[i] = now;
    }
    c.check(same_object, [&](auto& o) {
      what(o);
      o << " did not return the assigned variable";
    });
    model[target] = want;
  };
  auto small = [&](int i) {
    Comp v;
    if (s.below(4) == 3)
      v = gen_comp(s, rep(i));
    else
    {
      v = {i128(s.below(41)), i128(1 + s.below(30))};
      if (rep(i).is_signed && s.coin())
        v.n = -v.n;
      if (rep(i).is_signed && s.below(3) == 2)
        v.d = -v.d;
    }
    auto what = [&](auto& o) { o << names[i] << " = " << str(v); };
    c.note(what);
    bool const ok = m->assign(i, v);
    settle(i, lowest(v), ok, what);
  };
  // may a op b be computed in rep r, and what is it
  auto domain = [&](RepInfo const& r, int op, int form, Comp const& a, Comp const& b, Comp& want) {
    if (!fits_rep(a, r) || !fits_rep(b, r) || !working_fits(api.p, r, op, form, a, b))
      return false;
    bool ok;
    want = exact(op, a, b, ok);
    return ok;
  };
  int const init = 1 + int(s.below(4));
  for (int i = 0; i < init; ++i)
    small(int(s.below(4)));
  int const steps = 1 + int(s.below(10));
  for (int k = 0; k < steps; ++k)
  {
    int const i = int(s.below(4));
    int const j = s.below(4) == 3 ? i : int(s.below(4));
    int const op = int(s.below(5));
    Comp want;
    switch (s.below(12))
    {
      default:
      { // vi op= vj
        if (!domain(rep(i), op, FF, stored[i], stored[j], want))
        {
          small(s.coin() ? i : j);
          break;
        }
        auto what = [&](auto& o) { o << names[i] << " " << op_name(op) << "= " << names[j]; };
        c.note(what);
        bool const ok = m->compound(op, i, j);
        settle(i, want, ok, what);
        ++interesting;
        c.label(i == j ? "variable with itself" : i / 2 != j / 2 ? "mixed compound" : "compound");
        break;
      }
      case 4:
      case 5:
      case 6:
      { // vi op= whole
        int kind = int(s.below(W_COUNT));
        i128 w = 0;
        if (kind == W_OWN_NUM)
          w = stored[i].n;
        else if (kind == W_OWN_DEN)
          w = stored[i].d;
        else if (kind == W_OTHER_NUM)
          w = stored[j].n;
        else
        {
          w = s.coin() ? i128(s.below(60)) : gen_mag(s, rep(i).max);
          if (rep(i).is_signed && kind != W_UINT && kind != W_ULONG && s.coin())
            w = -w;
          RepInfo const t = kind == W_INT    ? rep_info<int>()
                            : kind == W_LONG ? rep_info<long>()
                            : kind == W_LLONG ? rep_info<long long>()
                            : kind == W_UINT ? rep_info<unsigned>()
                                             : rep_info<unsigned long>();
          while (!t.fits(w)
                 || (w != 0 && !domain(rep(i), op, FR, stored[i], {w, 1}, want)))
            w /= 2;
        }
        if (!domain(rep(i), op, FR, stored[i], {w, 1}, want))
        {
          small(i);
          break;
        }
        auto what = [&](auto& o) {
          static char const* const kinds[]
            = {"own numerator", "own denominator", "other numerator", "int", "long", "long long", "unsigned", "unsigned long"};
          o << names[i] << " " << op_name(op) << "= " << str(w) << " (" << kinds[kind] << ")";
        };
        c.note(what);
        bool const ok = m->compound_whole(op, i, kind, j, w);
        settle(i, want, ok, what);
        ++interesting;
        c.label(kind <= W_OTHER_NUM ? "component as operand" : "whole operand");
        break;
      }
      case 7:
      case 8:
      { // vk = vi op vj
        int const k2 = int(s.below(4));
        RepInfo const& r = i / 2 == j / 2 ? rep(i) : api.common;
        Comp res;
        if (!domain(r, op, FF, stored[i], stored[j], want)
            || (res = m->binary(op, i, j), !fits_rep(res, rep(k2))))
        {
          small(k2);
          break;
        }
        auto what = [&](auto& o) {
          o << names[k2] << " = " << names[i] << " " << op_name(op) << " " << names[j];
        };
        c.note(what);
        bool const ok = m->store_binary(op, k2, i, j);
        settle(k2, want, ok, what);
        // the compound assignment gives the same value
        if (k2 != i && k2 != j && i / 2 == j / 2)
        {
          Comp w2;
          if (domain(rep(i), op, FF, stored[i], stored[j], w2))
          {
            bool const ok2 = m->compound(op, i, j);
            auto what2 = [&](auto& o) { o << names[i] << " " << op_name(op) << "= " << names[j]; };
            c.note(what2);
            settle(i, w2, ok2, what2);
          }
        }
        ++interesting;
        c.label("binary");
        break;
      }
      case 9:
      { // vk = vi op w or w op vi
        bool const left = s.coin();
        i128 w = gen_mag(s, rep(i).max);
        if (rep(i).is_signed && s.coin())
          w = -w;
        auto dom = [&](i128 v) {
          return left ? domain(rep(i), op, RF, {v, 1}, stored[i], want)
                      : domain(rep(i), op, FR, stored[i], {v, 1}, want);
        };
        while (w != 0 && !dom(w))
          w /= 2;
        Comp res;
        if (!dom(w) || (res = m->whole_result(op, i, w, left), !fits_rep(res, rep(j))))
        {
          small(i);
          break;
        }
        auto what = [&](auto& o) {
          o << names[j] << " = ";
          if (left)
            o << str(w) << " " << op_name(op) << " " << names[i];
          else
            o << names[i] << " " << op_name(op) << " " << str(w);
        };
        c.note(what);
        m->store_whole(op, j, i, w, left);
        settle(j, want, true, what);
        ++interesting;
        break;
      }
      case 10:
        if (s.coin() && rep(j).is_signed && fits_rep(stored[j], rep(i)))
        {
          Comp const n = {-stored[j].n, stored[j].d};
          if (!fits_rep(n, rep(i)))
          {
            small(i);
            break;
          }
          auto what = [&](auto& o) { o << names[i] << " = -" << names[j]; };
          c.note(what);
          bool const ok = m->negate(i, j);
          settle(i, lowest(n), ok, what);
        }
        else if (fits_rep(stored[j], rep(i)))
        {
          auto what = [&](auto& o) { o << names[i] << " = " << names[j]; };
          c.note(what);
          bool const ok = m->copy(i, j);
          settle(i, lowest(stored[j]), ok, what);
        }
        else
          small(i);
        break;
      case 11:
      { // (vi op= vj) op2= vk, small operands
        int const k2 = int(s.below(4)), op2 = int(s.below(5));
        Comp mid = {0, 0};
        auto tiny = [&](Comp const& v) { return mag(v.n) < 40 && mag(v.d) < 40; };
        if (!rep(i).is_signed || !tiny(stored[i]) || !tiny(stored[j]) || !tiny(stored[k2])
            || k2 == i)
        {
          small(s.coin() ? i : s.coin() ? j : k2);
          break;
        }
        bool ok;
        mid = exact(op, stored[i], stored[j], ok);
        want = exact(op2, mid, stored[k2], ok);
        auto what = [&](auto& o) {
          o << "(" << names[i] << " " << op_name(op) << "= " << names[j] << ") "
            << op_name(op2) << "= " << names[k2];
        };
        c.note(what);
        bool const r = m->chain(op, op2, i, j, k2);
        settle(i, want, r, what);
        ++interesting;
        c.label("chained");
        break;
      }
    }
  }
  c.nontrivial(interesting >= 2);
  bool undef = false;
  for (auto& v : model)
    undef = undef || v.d == 0;
  c.label_if(undef, "undefined reached");
}

template <typename L, typename R, typename P>
void add_pair(double weight)
{
  using C = std::common_type_t<L, R>;
  auto* api = new Api {P::info(),
                       {rep_info<L>(), rep_info<R>()},
                       rep_info<C>(),
                       []() -> Machine* { return new Impl<L, R, typename P::ops>; }};
  pbt::add(api->p.name + " " + api->rep[0].name + " " + api->rep[1].name,
           weight,
           [api](Ctx& c) { body(c, *api); });
}

PBT_REGISTER([] {
  pbt::rule()
    = "histories of up to 10 updates (plus initial assignments) of four variables of "
      "two representations; the exact values of all variables are checked after every "
      "update; non-trivial: at least two arithmetic updates in range";
  using P = pol::at<PART>;
  add_pair<int, int, P>(3);
  add_pair<long, int, P>(2);
  add_pair<long long, long, P>(2);
#if PART < 8
  add_pair<unsigned, unsigned long, P>(1);
  add_pair<int, unsigned, P>(1);
  add_pair<unsigned long, long, P>(1);
  add_pair<long long, unsigned long, P>(1);
#endif
});

} // namespace
