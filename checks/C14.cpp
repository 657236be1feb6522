// C14: valid floating-point strings convert to exactly the value they denote.
#include "literal.hpp"
#include "policies.hpp"

#include <ieme/floating_point.hpp>

using namespace ref;

namespace {

struct Api {
  std::string name;
  RepInfo r;
  Comp (*convert)(std::string_view s);
};

template <typename T, typename Ops>
Comp convert(std::string_view s)
{
  return pol::comp(ieme::floating_point_string_to_fraction<T, Ops>(s));
}
template <typename T>
Comp convert_default(std::string_view s)
{
  ieme::fraction<T> const f = ieme::floating_point_string_to_fraction<T>(s);
  return pol::comp(f);
}

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  lit::Generated const g = lit::generate(s, api.r);
  c.note([&](auto& o) { o << lit::quote(g.text) << " = " << str(g.value); });
  Comp const got = api.convert(lit::guarded().put(g.text, s.coin()));
  c.check(got.d != 0 && cmp(got, g.value) == 0, [&](auto& o) {
    o << lit::quote(g.text) << " gave " << str(got) << ", expected " << str(lowest(g.value))
      << " (" << api.name << ")";
  });
  c.nontrivial(lowest(g.value).d > 1 || g.exponent || g.separators);
  c.label(g.hex ? "hexadecimal" : "decimal");
  c.label_if(g.exponent, "exponent");
  c.label_if(g.separators, "separators");
  c.label_if(g.value.n == 0, "zero");
}

template <typename T>
void add_rep(double w)
{
  auto* api = new Api {std::string("default ") + rep_name<T>(), rep_info<T>(), &convert_default<T>};
  pbt::add(api->name, 3 * w, [api](Ctx& c) { body(c, *api); });
  auto more = [&]<int I>(std::integral_constant<int, I>) {
    using P = pol::at<I>;
    auto* a = new Api {P::info().name + " " + rep_name<T>(), rep_info<T>(), &convert<T, typename P::ops>};
    pbt::add(a->name, w, [a](Ctx& c) { body(c, *a); });
  };
  more(std::integral_constant<int, 1>());
  more(std::integral_constant<int, 2>());
  more(std::integral_constant<int, 9>());
}

PBT_REGISTER([] {
  pbt::rule()
    = "literals spelled from a value in range: every precision, leading and trailing "
      "zeros, separators, both cases, omitted parts, exponents up to the largest that "
      "fits; text next to inaccessible memory; non-trivial: not an integer, or an "
      "exponent or separators";
#if PART == 0
  add_rep<int>(2);
  add_rep<unsigned>(1);
#elif PART == 1
  add_rep<long>(2);
  add_rep<unsigned long>(1);
#else
  add_rep<long long>(2);
  add_rep<unsigned long long>(1);
#endif
});

} // namespace
