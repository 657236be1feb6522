// C02: comparisons decide the exact rational order.
#include "policies.hpp"

using namespace ref;

namespace {

struct Api {
  PolicyInfo p;
  RepInfo l, r, c;
  // bits: == != < <= > >=
  unsigned (*cmp)(int form, Comp const& a, Comp const& b);
};

template <typename A, typename B>
unsigned bits(A const& a, B const& b)
{
  return unsigned(bool(a == b)) | unsigned(bool(a != b)) << 1
         | unsigned(bool(a < b)) << 2 | unsigned(bool(a <= b)) << 3
         | unsigned(bool(a > b)) << 4 | unsigned(bool(a >= b)) << 5;
}

template <typename L, typename R, typename Ops>
unsigned compare(int form, Comp const& a, Comp const& b)
{
  if (form == FF)
    return bits(pol::make<L, Ops>(a), pol::make<R, Ops>(b));
  if (form == FR)
    return bits(pol::make<L, Ops>(a), static_cast<R>(b.n));
  return bits(static_cast<L>(a.n), pol::make<R, Ops>(b));
}

char const* const names[] = {"==", "!=", "<", "<=", ">", ">="};

void body(Ctx& c, Api const& api)
{
  Src& s = c.src;
  int form = int(s.below(4));
  form = form == 3 ? int(FF) : form;
  Comp a, b;
  auto pred
    = [&](Comp const& x, Comp const& y) { return compare_fits(api.p, api.c, form, x, y); };
  if (!gen_pair(s, a, b, form, api.l, api.r, false, pred))
    c.discard();
  if (s.below(4) == 3)
  { // very close: one unit off an equal value in a finer form
    Comp x = a, y = a;
    if (form == RF)
      y = {a.n, 1};
    else if (form == FR)
    {
      y = b;
      x = {b.n, 1};
    }
    Comp& fine = form == FR ? x : y;
    RepInfo const& fr = form == FR ? api.l : api.r;
    i128 const big = mag(fine.n) > mag(fine.d) ? i128(mag(fine.n)) : i128(mag(fine.d));
    i128 const room = fr.max / big;
    if (room >= 1)
    {
      i128 k = 1 + gen_mag(s, room - 1);
      if (fr.is_signed && s.coin())
        k = -k;
      fine.n *= k;
      fine.d *= k;
      fine.n += i128(s.below(3)) - 1;
      if (comp_fits(fine, fr) && comp_fits(x, api.l) && comp_fits(y, api.r)
          && pred(x, y))
      {
        a = x;
        b = y;
        c.label("close values");
      }
    }
  }
  c.note([&](auto& o) {
    o << (form == RF ? str(a.n) : str(a)) << " <=> " << (form == FR ? str(b.n) : str(b));
  });
  int const k = cmp(a, b);
  unsigned const want = unsigned(k == 0) | unsigned(k != 0) << 1 | unsigned(k < 0) << 2
                        | unsigned(k <= 0) << 3 | unsigned(k > 0) << 4
                        | unsigned(k >= 0) << 5;
  unsigned const got = api.cmp(form, a, b);
  if (got != want)
    for (int i = 0; i < 6; ++i)
      c.check((got >> i & 1) == (want >> i & 1), [&](auto& o) {
        o << (form == RF ? str(a.n) : str(a)) << " " << names[i] << " "
          << (form == FR ? str(b.n) : str(b)) << " gave " << (got >> i & 1)
          << " (" << api.p.name << ")";
      });
  c.nontrivial((form != RF && mag(a.d) > 1) || (form != FR && mag(b.d) > 1)
               || a.d < 0 || b.d < 0);
  c.label(form_name(form));
  c.label_if(k == 0 && !same(a, b), "equal in different forms");
  c.label_if(a.d < 0 || b.d < 0, "negative denominator");
}

template <typename L, typename R, typename P>
void add_pair(double weight)
{
  using C = std::common_type_t<L, R>;
  auto const ci = rep_info<C>();
  auto* api = new Api {P::info(),
                       within(rep_info<L>(), ci),
                       within(rep_info<R>(), ci),
                       ci,
                       &compare<L, R, typename P::ops>};
  pbt::add(api->p.name + " " + api->l.name + " " + api->r.name,
           weight,
           [api](Ctx& c) { body(c, *api); });
}

PBT_REGISTER([] {
  pbt::rule()
    = "operand pairs (independent, equal in another form, off by one unit of a "
      "finer form, related components), halved until the compared values fit; "
      "non-trivial: a denominator other than 1";
  using P = pol::at<PART>;
  add_pair<int, int, P>(4);
  add_pair<long, long, P>(3);
  add_pair<long long, long long, P>(2);
  add_pair<unsigned, unsigned, P>(2);
  add_pair<unsigned long, unsigned long, P>(1);
  add_pair<unsigned long long, unsigned long long, P>(1);
  add_pair<int, long, P>(1);
  add_pair<long, int, P>(1);
  add_pair<int, long long, P>(1);
  add_pair<long long, int, P>(1);
  add_pair<long, long long, P>(0.5);
  add_pair<long long, long, P>(0.5);
  add_pair<int, unsigned, P>(1);
  add_pair<unsigned, int, P>(1);
  add_pair<unsigned, long, P>(1);
  add_pair<long, unsigned, P>(1);
  add_pair<unsigned long, int, P>(1);
  add_pair<int, unsigned long, P>(1);
  add_pair<long long, unsigned long, P>(0.5);
  add_pair<unsigned long, long long, P>(0.5);
  add_pair<long, unsigned long, P>(0.2);
  add_pair<unsigned long, long, P>(0.2);
  add_pair<long, unsigned long long, P>(0.2);
  add_pair<unsigned long long, long, P>(0.2);
  add_pair<long long, unsigned long long, P>(0.2);
  add_pair<unsigned long long, long long, P>(0.2);
  add_pair<unsigned, long long, P>(0.2);
  add_pair<long long, unsigned, P>(0.2);
  add_pair<int, unsigned long long, P>(0.2);
  add_pair<unsigned long long, int, P>(0.2);
  add_pair<unsigned, unsigned long long, P>(0.2);
  add_pair<unsigned long long, unsigned, P>(0.2);
  add_pair<unsigned long, unsigned long long, P>(0.2);
  add_pair<unsigned long long, unsigned long, P>(0.2);
});

} // namespace
