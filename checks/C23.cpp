// C23: conversions between representations and policies keep the components.
#include "policies.hpp"

#include <ieme/raw_fraction.hpp>

#include <memory>
#include <ratio>

using namespace ref;

namespace {

enum How { DIRECT, COPY, ASSIGN, RAW, PARTS, FROM_RAW, HOWS };
char const* const how_name[] = {"direct initialisation", "copy initialisation", "assignment",
                                "raw fraction", "components", "construction from a raw fraction"};

struct Store { // the slots of a history, one per type
  virtual ~Store() = default;
  virtual Comp get(int how) const = 0;
  virtual void set(int how, Comp const& c) = 0;
  virtual void set_one(int how, bool num, i128 v) = 0;
  virtual bool same_components() const = 0;
};

template <typename T, typename O>
struct Slot final : Store {
  using F = ieme::fraction<T, O>;
  static_assert(std::is_same_v<typename F::rep_type, T>);
  static_assert(std::is_same_v<typename F::ops_type, O>);
  static_assert(std::is_same_v<typename F::raw_fraction_type, ieme::raw_fraction<T>>);
  F f;
  Comp get(int how) const override
  {
    F& m = const_cast<F&>(f);
    switch (how)
    {
      case 0:
        return {i128(f.numerator()), i128(f.denominator())};
      case 1:
        return {i128(f.num()), i128(f.den())};
      case 2:
        return {i128(f.raw().numerator), i128(f.raw().denominator)};
      case 3:
        return {i128(m.numerator()), i128(m.denominator())};
      case 4:
        return {i128(m.num()), i128(m.den())};
      case 5:
        return {i128(m.raw().numerator), i128(m.raw().denominator)};
      case 6:
      {
        F const g = f;
        return pol::comp(g);
      }
      default:
      {
        F a = f;
        F const b = std::move(a);
        F d;
        d = b;
        return pol::comp(d);
      }
    }
  }
  void set(int how, Comp const& c) override
  {
    switch (how)
    {
      case 0:
        f = F(T(c.n), T(c.d));
        break;
      case 1:
        f = F {T(c.n), T(c.d)};
        break;
      case 2:
        f = ieme::raw_fraction<T> {T(c.n), T(c.d)};
        break;
      case 3:
        f.raw() = ieme::raw_fraction<T>(T(c.n), T(c.d));
        break;
      case 4: // a whole number
        f = T(c.n);
        break;
      case 5:
        f = F(T(c.n));
        break;
      case 6: // the default
        f = F();
        break;
      default:
        f = F {};
        break;
    }
  }
  void set_one(int how, bool num, i128 v) override
  {
    T& r = how == 0 ? (num ? f.numerator() : f.denominator()) : how == 1 ? (num ? f.num() : f.den()) : (num ? f.raw().numerator : f.raw().denominator);
    r = T(v);
  }
  bool same_components() const override
  {
    F& m = const_cast<F&>(f);
    return &m.numerator() == &m.num() && &m.denominator() == &m.den()
           && &m.numerator() == &m.raw().numerator && &m.denominator() == &m.raw().denominator
           && &f.numerator() == &m.numerator() && &f.denominator() == &m.denominator()
           && &f.num() == &m.num() && &f.den() == &m.den() && &f.raw() == &m.raw();
  }
};

template <typename T, typename O, typename U, typename Q>
void convert(Store const& from, Store& to, int how)
{
  auto const& f = static_cast<Slot<T, O> const&>(from).f;
  auto& g = static_cast<Slot<U, Q>&>(to).f;
  using G = ieme::fraction<U, Q>;
  constexpr bool same = std::is_same_v<O, Q>;
  switch (how)
  {
    case DIRECT:
    {
      G h(f);
      g = h;
      break;
    }
    case COPY:
      if constexpr (same)
      {
        G h = f;
        g = h;
      }
      else
        g = G {f};
      break;
    case ASSIGN:
      if constexpr (same)
        g = f;
      else
        g = static_cast<G>(f);
      break;
    case RAW:
      g.raw() = f.raw();
      break;
    case PARTS:
      g = G(U(f.numerator()), U(f.denominator()));
      break;
    case FROM_RAW:
    {
      ieme::raw_fraction<U> const r = f.raw();
      g = G(r);
      break;
    }
  }
}

struct Type {
  std::string name;
  RepInfo r;
  int policy;
  Store* (*make)();
};
struct Link {
  void (*convert)(Store const&, Store&, int);
  bool implicit, explicit_, raw_implicit;
};

struct World {
  std::vector<Type> types;
  std::vector<std::vector<Link>> links;
};

template <typename T, int P>
struct Tag {
  using rep = T;
  using ops = typename pol::at<P>::ops;
  static constexpr int policy = P;
};

template <typename A, typename B>
Link link_()
{
  using F = ieme::fraction<typename A::rep, typename A::ops>;
  using G = ieme::fraction<typename B::rep, typename B::ops>;
  return {&convert<typename A::rep, typename A::ops, typename B::rep, typename B::ops>,
          std::is_convertible_v<F, G>, std::is_constructible_v<G, F>,
          std::is_convertible_v<ieme::raw_fraction<typename A::rep>, ieme::raw_fraction<typename B::rep>>};
}

template <typename A, typename... Bs>
std::vector<Link> links()
{
  return {link_<A, Bs>()...};
}

template <typename... Ts>
World* world()
{
  return new World {
    {Type {std::string(rep_name<typename Ts::rep>()) + " " + pol::at<Ts::policy>::info().name,
           rep_info<typename Ts::rep>(), Ts::policy,
           []() -> Store* { return new Slot<typename Ts::rep, typename Ts::ops>; }}...},
    {links<Ts, Ts...>()...}};
}

bool holds(RepInfo const& r, i128 v) { return v >= r.true_min && v <= r.max; }

void history(Ctx& c, World const& w)
{
  Src& s = c.src;
  int const n = int(w.types.size());
  std::vector<std::unique_ptr<Store>> st;
  std::vector<Comp> model(n, Comp {0, 1});
  for (auto const& t : w.types)
    st.emplace_back(t.make());
  int const steps = 1 + int(s.below(10));
  int conversions = 0;
  for (int k = 0; k < steps; ++k)
  {
    int const kind = k == 0 ? 0 : int(s.below(5));
    std::string what;
    if (kind == 0)
    {
      int const i = int(s.below(n)), how = int(s.below(8));
      Comp v = s.below(8) ? gen_comp(s, w.types[i].r) : Comp {gen_int(s, w.types[i].r), gen_int(s, w.types[i].r)};
      if (s.one_in(20))
        v.d = 0;
      if (s.one_in(25))
        (s.coin() ? v.n : v.d) = w.types[i].r.true_min;
      if (s.coin()) // small enough to fit everywhere
      {
        v.n %= 1000;
        v.d %= 1000;
        if (s.coin())
        {
          v.n = v.n < 0 ? -v.n : v.n;
          v.d = v.d < 0 ? -v.d : v.d;
        }
      }
      if (how == 4 || how == 5)
        v.d = 1;
      if (how >= 6)
        v = {0, 1};
      st[i]->set(how, v);
      model[i] = v;
      c.note([&](auto& o) { o << w.types[i].name << " := " << str(v) << " (" << how << ")"; });
    }
    else if (kind == 1)
    {
      int const i = int(s.below(n)), how = int(s.below(3));
      bool const num = s.coin();
      i128 const v = gen_int(s, w.types[i].r);
      st[i]->set_one(how, num, v);
      (num ? model[i].n : model[i].d) = v;
      c.note([&](auto& o) {
        o << w.types[i].name << (num ? " numerator := " : " denominator := ") << str(v) << " (" << how << ")";
      });
    }
    else
    {
      int const i = int(s.below(n));
      std::vector<int> to;
      for (int j = 0; j < n; ++j)
        if (holds(w.types[j].r, model[i].n) && holds(w.types[j].r, model[i].d))
          to.push_back(j);
      if (to.empty())
        continue;
      int const j = to[s.below(to.size())], how = int(s.below(HOWS));
      w.links[i][j].convert(*st[i], *st[j], how);
      model[j] = model[i];
      ++conversions;
      c.note([&](auto& o) { o << w.types[i].name << " -> " << w.types[j].name << " by " << how_name[how]; });
      if (w.types[i].policy != w.types[j].policy)
        c.label("across policies");
      else
        c.label("within a policy");
    }
    int const how = int(s.below(8));
    for (int i = 0; i < n; ++i)
    {
      Comp const got = st[i]->get(how);
      c.check(same(got, model[i]), [&](auto& o) {
        o << "after step " << k + 1 << " the " << w.types[i].name << " fraction has components "
          << str(got) << " instead of " << str(model[i]) << " (read by way " << how << ")";
      });
    }
    c.check(st[s.below(n)]->same_components(), [&](auto& o) {
      o << "accessors of a fraction refer to different components";
    });
  }
  c.nontrivial(conversions > 0);
}

void traits(Ctx& c, World const& w)
{
  Src& s = c.src;
  int const n = int(w.types.size());
  int const i = int(s.below(n)), j = int(s.below(n));
  Link const& l = w.links[i][j];
  bool const same = w.types[i].policy == w.types[j].policy;
  c.nontrivial(i != j);
  c.note([&](auto& o) { o << "traits of " << w.types[i].name << " -> " << w.types[j].name; });
  c.check(l.implicit == same, [&](auto& o) {
    o << "conversion from " << w.types[i].name << " to " << w.types[j].name << " is "
      << (l.implicit ? "" : "not ") << "implicit";
  });
  c.check(l.explicit_, [&](auto& o) {
    o << w.types[j].name << " cannot be constructed from " << w.types[i].name;
  });
  c.check(l.raw_implicit, [&](auto& o) {
    o << "raw fractions of " << w.types[i].name << " do not convert to those of " << w.types[j].name;
  });
}

struct Ratio {
  std::string name;
  Comp want;
  Comp (*make)(int how);
};

template <typename T, typename O, typename R>
Comp from_ratio(int how)
{
  using F = ieme::fraction<T, O>;
  if (how == 0)
    return pol::comp(F(R {}));
  if (how == 1)
  {
    F const f = R();
    return pol::comp(f);
  }
  F f;
  f = R {};
  return pol::comp(f);
}

template <typename T, int P, typename... Rs>
void add_ratios(std::vector<Ratio>& v)
{
  (v.push_back({std::string(rep_name<T>()) + " " + pol::at<P>::info().name + " from std::ratio<"
                  + std::to_string(Rs::num) + ", " + std::to_string(Rs::den) + ">",
                {Rs::num, Rs::den}, &from_ratio<T, typename pol::at<P>::ops, Rs>}),
   ...);
}

template <int P>
void ratios(std::vector<Ratio>& v)
{
  using std::ratio;
  add_ratios<int, P, ratio<1>, ratio<0>, ratio<-3, 7>, ratio<2147483647, 2147483646>, std::milli, ratio<5, 1>, ratio<4, 6>, ratio<6, -8>,
             ratio<-9, -12>, ratio<10000000000, 20000000000>, ratio<-6000000000, 4000000000>, ratio<0, 5>,
             ratio<0, -7>, ratio<100, 10>>(v);
  add_ratios<long, P, std::nano, std::atto, std::exa, ratio<-9223372036854775807, 2>, ratio<1, 9223372036854775807>,
              ratio<9223372036854775807, 9223372036854775807>, ratio<1000000000000, -1000000>, ratio<-4, -6>>(v);
  add_ratios<unsigned, P, ratio<1, 3>, ratio<4000000000, 7>, ratio<0>, ratio<-2, -4>,
             ratio<12000000000, 8000000000>>(v);
  add_ratios<unsigned long, P, std::giga, std::femto, ratio<355, 113>>(v);
  add_ratios<long long, P, std::kilo, std::pico, ratio<-22, 7>>(v);
}

template <int A, int B, int C>
void add(char const* name)
{
  World* w
    = world<Tag<int, A>, Tag<unsigned, A>, Tag<long, A>, Tag<unsigned long, A>, Tag<long long, A>,
            Tag<unsigned long long, A>, Tag<int, B>, Tag<unsigned, B>, Tag<long, B>,
            Tag<unsigned long long, B>, Tag<int, C>, Tag<unsigned, C>, Tag<long, C>,
            Tag<unsigned long, C>, Tag<long long, C>>();
  pbt::add(std::string("history ") + name, 8, [w](Ctx& c) { history(c, *w); });
  pbt::add(std::string("traits ") + name, 0.2, [w](Ctx& c) { traits(c, *w); });
  auto* v = new std::vector<Ratio>;
  ratios<A>(*v);
  ratios<B>(*v);
  ratios<C>(*v);
  pbt::add(std::string("ratio ") + name, 0.2, [v](Ctx& c) {
    Ratio const& r = (*v)[c.src.below(v->size())];
    int const how = int(c.src.below(3));
    c.nontrivial(r.want.d != 1);
    c.note([&](auto& o) { o << r.name; });
    Comp const got = r.make(how);
    c.check(same(got, r.want), [&](auto& o) { o << r.name << " is " << str(got); });
  });
}

PBT_REGISTER([] {
  pbt::rule()
    = "histories of up to ten steps over 15 fractions of different representation or policy: "
      "set from components, whole numbers, raw fractions, the default, one component through "
      "one accessor, conversion wherever the components fit (five ways); all components are "
      "read back each step; also conversion traits and std::ratio; non-trivial: at least one "
      "conversion";
#if PART == 0
  add<0, 1, 2>("0 1 2");
#elif PART == 1
  add<0, 3, 4>("0 3 4");
#elif PART == 2
  add<0, 5, 6>("0 5 6");
#elif PART == 3
  add<7, 8, 9>("7 8 9");
#elif PART == 4
  add<10, 11, 12>("10 11 12");
#else
  add<2, 7, 1>("2 7 1");
#endif
});

} // namespace
