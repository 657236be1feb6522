// The arithmetic policies under test: the eight named ones and compositions.
#ifndef POLICIES_HPP
#define POLICIES_HPP

#include "ref.hpp"

#include <ieme/fraction.hpp>
#include <ieme/ops.hpp>

namespace pol {

namespace io = ieme::ops;
using ieme::reduce_mode;

using c0 = io::reduced_input<io::fast, reduce_mode::normalize_signs>;
using c1 = io::reduced_output<io::safe, reduce_mode::ignore_signs>;
using c2
  = io::reduced_input<io::reduced_output<io::fast, reduce_mode::ignore_signs>,
                      reduce_mode::normalize_signs>;
using c3 = io::reduced_output<io::reduced_input<io::safe>>;
using c4
  = io::reduced_output<io::reduced_input<io::fast, reduce_mode::normalize_signs>,
                       reduce_mode::ignore_signs>;

template <int I>
struct at;
#define POL(i, type, name, safe, in, out, norm)                               \
  template <>                                                                 \
  struct at<i> {                                                              \
    using ops = type;                                                         \
    static ref::PolicyInfo info() { return {name, safe, in, out, norm}; }     \
  };
POL(0, io::safe_reduced_io, "safe_io", true, true, true, true)
POL(1, io::safe, "safe", true, false, false, false)
POL(2, io::fast, "fast", false, false, false, false)
POL(3, io::safe_reduced_i, "safe_i", true, true, false, false)
POL(4, io::safe_reduced_o, "safe_o", true, false, true, true)
POL(5, io::fast_reduced_i, "fast_i", false, true, false, false)
POL(6, io::fast_reduced_o, "fast_o", false, false, true, true)
POL(7, io::fast_reduced_io, "fast_io", false, true, true, true)
POL(8, c0, "in_norm(fast)", false, true, false, false)
POL(9, c1, "out_ign(safe)", true, false, true, false)
POL(10, c2, "in_norm(out_ign(fast))", false, true, true, false)
POL(11, c3, "out(in(safe))", true, true, true, true)
POL(12, c4, "out_ign(in_norm(fast))", false, true, true, false)
#undef POL
inline constexpr int count = 13;

template <typename Rep, typename Ops>
ieme::fraction<Rep, Ops> make(ref::Comp const& c)
{
  return ieme::fraction<Rep, Ops>(static_cast<Rep>(c.n), static_cast<Rep>(c.d));
}

template <typename F>
ref::Comp comp(F const& f)
{
  return {ref::i128(f.numerator()), ref::i128(f.denominator())};
}

// Same components, without conversions.
template <typename F>
bool is(F const& f, ref::Comp const& c)
{
  return ref::i128(f.numerator()) == c.n && ref::i128(f.denominator()) == c.d;
}

} // namespace pol

#endif
