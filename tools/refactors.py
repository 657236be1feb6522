# Edits that keep the behaviour (see refactor.py).
REFACTORS = {}

REFACTORS["helpers"] = [
    ("ops.hpp", """template <typename Rep>
constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                       raw_fraction<Rep> const& right) noexcept
{
  if (is_undefined(left) || is_undefined(right))
    return {_0<Rep>, _0<Rep>};

  auto const lcm = std::lcm(left.denominator, right.denominator);

  return {lcm / left.denominator * left.numerator
            + lcm / right.denominator * right.numerator,
          lcm};""", """namespace detail {


template <typename Rep>
struct same_denominator {
  Rep left, right, denominator;
};

template <typename Rep>
constexpr same_denominator<Rep>
to_same_denominator(raw_fraction<Rep> const& left,
                    raw_fraction<Rep> const& right) noexcept
{
  Rep const factor
    = left.denominator / std::gcd(left.denominator, right.denominator);
  Rep common = factor * right.denominator;

  if (common < _0<Rep>)
    common = -common;

  return {common / left.denominator * left.numerator,
          common / right.denominator * right.numerator,
          common};
}


} // namespace detail

template <typename Rep>
constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                       raw_fraction<Rep> const& right) noexcept
{
  bool const defined = is_defined(left) && is_defined(right);

  if (!defined)
    return {_0<Rep>, _0<Rep>};

  auto const [l, r, denominator] = detail::to_same_denominator(left, right);

  return {r + l, denominator};"""),
    ("ops.hpp", """  return {lcm / left.denominator * left.numerator
            - lcm / right.denominator * right.numerator,
          lcm};""", """  Rep const left_numerator = left.numerator * (lcm / left.denominator);
  Rep const right_numerator = right.numerator * (lcm / right.denominator);

  return raw_fraction<Rep>(left_numerator - right_numerator, lcm);"""),
    ("ops.hpp", """  return lcm / left.denominator * left.numerator
         < lcm / right.denominator * right.numerator;""",
     """  return !(lcm / left.denominator * left.numerator
           >= lcm / right.denominator * right.numerator);"""),
    ("ops.hpp", """constexpr bool safe::greater_equal(raw_fraction<Rep> const& left,
                                   Rep const& right) noexcept
{
  return less_equal(right, left);
}""", """constexpr bool safe::greater_equal(raw_fraction<Rep> const& left,
                                   Rep const& right) noexcept
{
  if (!is_defined(left))
    return false;

  return !less(left, right);
}"""),
    ("math_utilities.hpp", """  if (exponent == _0<Int>)
    return _1<Int>;

  if (exponent % _2<Int> == _1<Int>)
    return base * pow(base, exponent - _1<Int>);

  auto const squareRoot = pow(base, exponent / _2<Int>);

  return squareRoot * squareRoot;""", """  auto result = _1<Int>;

  for (auto i = _0<Int>; i < exponent; ++i)
    result *= base;

  return result;"""),
    ("raw_fraction_math.hpp", """  auto const gcd = std::gcd(value.numerator, value.denominator);

  return {value.numerator / gcd, value.denominator / gcd};""", """  Rep a = value.numerator, b = value.denominator;

  while (b != _0<Rep>)
  {
    Rep const remainder = a % b;
    a = b;
    b = remainder;
  }

  Rep const divisor = (a < _0<Rep>) ? -a : a;

  return {value.numerator / divisor, value.denominator / divisor};"""),
    ("fraction_math.hpp", """  auto const floored = floor(value);

  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
           ? floored
           : floored + _1<Rep>;""", """  auto const below = floor(value);
  auto const half = fraction<Rep, Ops>(_1<Rep>, _2<Rep>);
  auto const distance = value - below;

  if (distance >= half)
    return below + _1<Rep>;

  return below;"""),
    ("hash.hpp", """  return left ^ (right << 1);""",
     """  return left ^ (right + 0x9e3779b97f4a7c15ULL + (left << 6) + (left >> 2));"""),
]

REFACTORS["structure"] = [
    ("detail_helpers.hpp", "", """#ifndef IEME_DETAIL_HELPERS_HPP
#define IEME_DETAIL_HELPERS_HPP

#include <ieme/numbers.hpp>


namespace ieme {
namespace detail {


template <typename Rep>
constexpr bool same_sign(Rep const& left, Rep const& right) noexcept
{
  return (left > _0<Rep> && right > _0<Rep>)
         || (left < _0<Rep> && right < _0<Rep>);
}


} // namespace detail
} // namespace ieme


#endif
"""),
    ("raw_fraction_queries.hpp", "#include <ieme/math_utilities.hpp>\n",
     "#include <ieme/detail_helpers.hpp>\n#include <ieme/math_utilities.hpp>\n"),
    ("raw_fraction_queries.hpp", """  return (value.numerator > _0<Rep> && value.denominator > _0<Rep>)
         || (value.numerator < _0<Rep> && value.denominator < _0<Rep>);""",
     """  return detail::same_sign(value.numerator, value.denominator);"""),
    ("raw_fraction_queries.hpp", """  return (value.numerator >= _0<Rep> && value.denominator < _0<Rep>)
         || (value.numerator <= _0<Rep> && value.denominator > _0<Rep>);""",
     """  return is_zero(value) || is_negative(value);"""),
    ("raw_fraction_queries.hpp", """  return math_utilities::abs(value.numerator)
         < math_utilities::abs(value.denominator);""",
     """  auto const numerator = math_utilities::abs(value.numerator);
  auto const denominator = math_utilities::abs(value.denominator);

  return denominator > numerator;"""),
    ("fraction_math.hpp", """  return is_non_negative(value) ? value : -value;""",
     """  if (is_negative(value))
    return -value;
  if (is_undefined(value))
    return -value;

  return value;"""),
    ("fraction_math.hpp", """  return {(denominator >= _0<Rep>) ? floor(value * denominator)
                                   : -floor(value * -denominator),
          denominator};""", """  if (denominator < _0<Rep>)
    return {-floor(value * -denominator), denominator};

  return {floor(value * denominator), denominator};"""),
    ("fraction_math.hpp", """  return (exponent >= 0)
           ? fraction<Rep, Ops>(
             math_utilities::pow(base, static_cast<Rep>(exponent)))
           : fraction<Rep, Ops>(
             _1<Rep>, math_utilities::pow(base, static_cast<Rep>(-exponent)));""",
     """  if (exponent < 0)
    return {_1<Rep>, math_utilities::pow(base, static_cast<Rep>(-exponent))};

  return math_utilities::pow(base, static_cast<Rep>(exponent));"""),
    ("fraction.hpp", """      return left = left symbol fraction<LeftRep, Ops>(right);                 \\
""", """    {                                                                          \\
      auto const converted = static_cast<fraction<LeftRep, Ops>>(right);       \\
      left = left symbol converted;                                            \\
      return left;                                                             \\
    }                                                                          \\
"""),
    ("fraction.hpp", """  return Ops::negate(value.raw());""", """  raw_fraction<Rep> const negated = Ops::negate(value.raw());

  return fraction<Rep, Ops>(negated);"""),
    ("mixed_number.hpp", """  return {-value.whole(), -value.fractional()};""",
     """  auto const whole = -value.whole();
  auto const fractional = -value.fractional();

  return mixed_number<WRep, FRep, Ops>(whole, fractional);"""),
    ("mixed_number.hpp", """  return left + mixed_number<FRep2, FRep2, Ops>(right);""",
     """  mixed_number<FRep2, FRep2, Ops> const converted = right;

  return left + converted;"""),
    ("chrono.hpp", """  static time_point now() noexcept { return clock_type::now(); }""",
     """  static time_point now() noexcept
  {
    auto const current = clock_type::now();

    return time_point(current);
  }"""),
    ("raw_fraction.hpp", """  stream >> value.numerator;
  stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
  return stream >> value.denominator;""", """  if (!(stream >> value.numerator))
    return stream;

  stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
  stream >> value.denominator;

  return stream;"""),
    ("fraction_literals.hpp", """  return left / static_cast<Rep>(right.value());""",
     """  auto const divisor = static_cast<Rep>(right.value());

  return left / divisor;"""),
]

REFACTORS["parsing"] = [
    ("parse_utilities.hpp", """  auto digit_preceeded = false;

  for (auto const c : sequence)
  {
    if (c == '\\'')
    {
      if (!digit_preceeded)
        return false;

      digit_preceeded = false;
    }
    else
    {
      if ((c < '0' || c > '9')
          && (((c < 'a' || c > 'f') && (c < 'A' || c > 'F')) || base != 16))
        return false;

      digit_preceeded = true;
    }
  }

  return digit_preceeded;""", """  if (sequence.empty() || sequence.front() == '\\'' || sequence.back() == '\\'')
    return false;

  for (auto i = 0U; i < sequence.size(); ++i)
  {
    auto const c = sequence[i];

    if (c == '\\'')
    {
      if (sequence[i + 1] == '\\'')
        return false;

      continue;
    }

    auto const decimal = c >= '0' && c <= '9';
    auto const hexadecimal = (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');

    if (!decimal && !(base == 16 && hexadecimal))
      return false;
  }

  return true;"""),
    ("parse_utilities.hpp", """  for (auto it = sequence.begin(); it != sequence.end(); ++it)
  {
    if (*it == '\\'')
      continue;

    auto const digit_as_int = [&]() {
      if (*it >= 'A' && *it <= 'F')
        return static_cast<Int>(*it - 'A' + 10);

      if (*it >= 'a' && *it <= 'f')
        return static_cast<Int>(*it - 'a' + 10);

      return static_cast<Int>(*it - '0');
    }();
""", """  for (auto const c : sequence)
  {
    if (c == '\\'')
      continue;

    auto const digit_as_int = static_cast<Int>(
      (c <= '9') ? c - '0' : (c <= 'F') ? c - 'A' + 10 : c - 'a' + 10);
"""),
    ("parse_utilities.hpp", """  results.fractional_precision = [&]() {
    auto result = 0U;

    for (auto const digit : results.fractional)
      if (digit != '\\'')
        ++result;

    return result;
  }();""", """  for (auto const digit : results.fractional)
    results.fractional_precision += (digit == '\\'') ? 0 : 1;"""),
    ("floating_point.hpp", """  auto const reduced = reduce(value);

  return static_cast<Float>(reduced.num()) / static_cast<Float>(reduced.den());""",
     """  auto const [numerator, denominator] = reduce(value).raw();

  Float const dividend = numerator;
  Float const divisor = denominator;

  return dividend / divisor;"""),
    ("floating_point.hpp", """  for (; significand % _2<UintRep> == _0<UintRep>; significand /= _2<UintRep>)
    ++exponent;""", """  auto const shift = std::countr_zero(significand);

  significand >>= shift;
  exponent += shift;"""),
    ("floating_point.hpp", """  auto const exponent_sign_multiplier = [&] {
    switch (scan_results.exponent_sign)
    {
      case parse_utilities::sign::negative:
        return -1;
      case parse_utilities::sign::positive:
        return +1;
    }
  }();
  auto const exponent
    = exponent_sign_multiplier
      * parse_utilities::digit_sequence_to_int(scan_results.exponent, 10);
""", """  auto exponent
    = parse_utilities::digit_sequence_to_int(scan_results.exponent, 10);

  if (scan_results.exponent_sign == parse_utilities::sign::negative)
    exponent = -exponent;
"""),
    ("limits.hpp", """  return {_1<Rep>, std::numeric_limits<Rep>::max()};""",
     """  return reciprocal(raw_fraction<Rep>(max().raw()));"""),
    ("mixed_number.hpp", """  return common_rep_type(whole_)
         + fraction<common_rep_type, ops_type>(fractional_);""",
     """  return fraction<common_rep_type, ops_type>(fractional_)
         + static_cast<common_rep_type>(whole_);"""),
]

# Conditions turned round, conversions collapsed, early returns, loops for lists.
REFACTORS["rewrites"] = [
    ("fraction.hpp", """  if constexpr (std::is_same_v<LeftRep, RightRep>)                             \\
    return Ops::function(left.raw(), right.raw());                             \\
  else if constexpr (std::is_same_v<LeftRep, common_rep_type>)                 \\
    return Ops::function(left.raw(),                                           \\
                         static_cast<common_raw_type>(right.raw()));           \\
  else if constexpr (std::is_same_v<RightRep, common_rep_type>)                \\
    return Ops::function(static_cast<common_raw_type>(left.raw()),             \\
                         right.raw());                                         \\
  else                                                                         \\
    return Ops::function(static_cast<common_raw_type>(left.raw()),             \\
                         static_cast<common_raw_type>(right.raw()));
""", """  return Ops::function(static_cast<common_raw_type>(left.raw()),               \\
                       static_cast<common_raw_type>(right.raw()));
"""),
    ("raw_fraction_queries.hpp", """  return (value.numerator > _0<Rep> && value.denominator > _0<Rep>)
         || (value.numerator < _0<Rep> && value.denominator < _0<Rep>);
""", """  if (is_undefined(value) || value.numerator == _0<Rep>)
    return false;

  return (value.numerator > _0<Rep>) == (value.denominator > _0<Rep>);
"""),
    ("raw_fraction_queries.hpp", """  return (value.numerator > _0<Rep> && value.denominator < _0<Rep>)
         || (value.numerator < _0<Rep> && value.denominator > _0<Rep>);
""", """  return is_defined(value) && !is_non_negative(value);
"""),
    ("raw_fraction_queries.hpp", """  auto const signs_are_normalized = value.denominator > _0<Rep>;

  return signs_are_normalized && is_reduced_ignore_signs(value);
""", """  if (value.denominator <= _0<Rep>)
    return false;

  return is_reduced_ignore_signs(value);
"""),
    ("raw_fraction_math.hpp", """  return (value.denominator > _0<Rep>)
           ? value
           : raw_fraction<Rep>(-value.numerator, -value.denominator);
""", """  auto result = value;

  if (result.denominator < _0<Rep>)
  {
    result.numerator = -result.numerator;
    result.denominator = -result.denominator;
  }

  return result;
"""),
    ("raw_fraction_math.hpp", """  switch (mode)
  {
    case reduce_mode::normalize_signs:
      return reduce_normalize_signs(value);
    case reduce_mode::ignore_signs:
      return reduce_ignore_signs(value);
  }

  return {_0<Rep>, _0<Rep>};
""", """  if (mode == reduce_mode::normalize_signs)
    return reduce_normalize_signs(value);

  return reduce_ignore_signs(value);
"""),
    ("fraction_math.hpp", """  return (is_integer(value) || is_negative(value)) ? truncated
                                                  : truncated + _1<Rep>;
""", """  if (is_positive(value) && !is_integer(value))
    return truncated + _1<Rep>;

  return truncated;
"""),
    ("fraction_math.hpp", """  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
           ? floored
           : floored + _1<Rep>;
""", """  constexpr auto half = fraction<Rep, Ops>(_1<Rep>, _2<Rep>);

  if (value - floored >= half)
    return floored + _1<Rep>;

  return floored;
"""),
    ("fraction_math.hpp", """  switch (mode)
  {
    case round_mode::trunc:
      return trunc(value);
    case round_mode::ceil:
      return ceil(value);
    case round_mode::floor:
      return floor(value);
    case round_mode::round:
      return round(value);
  }

  return to_whole(value);
""", """  return (mode == round_mode::trunc)   ? trunc(value)
         : (mode == round_mode::ceil)  ? ceil(value)
         : (mode == round_mode::floor) ? floor(value)
                                       : round(value);
"""),
    ("mixed_number.hpp", """  if (whole_ > _0<whole_type> && is_negative(fractional_))
  {
    whole_ -= _1<whole_type>;
    fractional_ = _1<fractional_rep_type> + fractional_;
  }
  else if (whole_ < _0<whole_type> && is_positive(fractional_))
  {
    whole_ += _1<whole_type>;
    fractional_ = -_1<fractional_rep_type> + fractional_;
  }
""", """  auto const borrow = [this](auto const whole_step, auto const fractional_step) {
    whole_ += whole_step;
    fractional_ = fractional_step + fractional_;
  };

  if (whole_ > _0<whole_type> && is_negative(fractional_))
    borrow(static_cast<whole_type>(-_1<whole_type>), _1<fractional_rep_type>);
  else if (whole_ < _0<whole_type> && is_positive(fractional_))
    borrow(_1<whole_type>, static_cast<fractional_rep_type>(-_1<fractional_rep_type>));
"""),
    ("hash.hpp", """  return hash_combine(std::hash<WRep>()(value.whole()),
                      hash(value.fractional()));
""", """  auto const whole_hash = std::hash<WRep> {}(value.whole());
  auto const fractional_hash = std::hash<fraction<FRep, Ops>> {}(value.fractional());

  return hash_combine(whole_hash, fractional_hash);
"""),
    ("raw_fraction.hpp", """  return stream << value.numerator << '/' << value.denominator;
""", """  stream << value.numerator;
  stream << "/";
  stream << value.denominator;

  return stream;
"""),
    ("parse_utilities.hpp", """    auto const first_two = remaining_string.substr(0, 2);

    if (first_two == "0x" || first_two == "0X")
    {
""", """    auto const is_hexadecimal
      = remaining_string[0] == '0'
        && (remaining_string[1] == 'x' || remaining_string[1] == 'X');

    if (is_hexadecimal)
    {
"""),
    ("parse_utilities.hpp", """      if ((c < '0' || c > '9')
          && (((c < 'a' || c > 'f') && (c < 'A' || c > 'F')) || base != 16))
        return false;
""", """      auto const is_decimal = c >= '0' && c <= '9';
      auto const is_hex_letter = (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');

      if (!(is_decimal || (base == 16 && is_hex_letter)))
        return false;
"""),
    ("floating_point.hpp", """  return sign * static_cast<Rep>(significand) * pow2<Rep, Ops>(exponent);
""", """  auto const signed_significand = static_cast<Rep>(sign * static_cast<Rep>(significand));

  return pow2<Rep, Ops>(exponent) * signed_significand;
"""),
    ("limits.hpp", """  return {_0<WRep>, limits<fractional_type>::undefined()};
""", """  auto const fractional = fractional_type(limits<fractional_type>::undefined());

  return mixed_number_type(_0<WRep>, fractional);
"""),
    ("ops.hpp", """  return ops_type::plus(reduce(left, mode), reduce(right, mode));
""", """  auto const reduced_left = reduce(left, mode);
  auto const reduced_right = reduce(right, mode);

  return ops_type::plus(reduced_left, reduced_right);
"""),
]

# The same arithmetic expressed through other operations, tables, standard algorithms.
REFACTORS["reworked"] = [
    ("ops.hpp", """constexpr raw_fraction<Rep> fast::minus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
{
  return {left.numerator * right.denominator
            - right.numerator * left.denominator,
          left.denominator * right.denominator};
""", """constexpr raw_fraction<Rep> fast::minus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
{
  auto const minuend = right.denominator * left.numerator;
  auto const subtrahend = left.denominator * right.numerator;

  raw_fraction<Rep> result(minuend, right.denominator);
  result.numerator -= subtrahend;
  result.denominator *= left.denominator;

  return result;
"""),
    ("ops.hpp", """constexpr bool fast::less(raw_fraction<Rep> const& left,
                          raw_fraction<Rep> const& right) noexcept
{
  auto const normalized_left = normalize_signs(left);
  auto const normalized_right = normalize_signs(right);

  return normalized_left.numerator * normalized_right.denominator
           < normalized_right.numerator * normalized_left.denominator
         && is_defined(left) && is_defined(right);
""", """constexpr bool fast::less(raw_fraction<Rep> const& left,
                          raw_fraction<Rep> const& right) noexcept
{
  if (is_undefined(left) || is_undefined(right))
    return false;

  auto const [left_numerator, left_denominator] = normalize_signs(left);
  auto const [right_numerator, right_denominator] = normalize_signs(right);

  return right_numerator * left_denominator > left_numerator * right_denominator;
"""),
    ("ops.hpp", """constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                Rep const& right) noexcept
{
  auto const normalized = normalize_signs(left);

  return normalized.numerator <= right * normalized.denominator
         && is_defined(left);
""", """constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                Rep const& right) noexcept
{
  return less(left, right) || equal_to(left, right);
"""),
    ("ops.hpp", """constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                raw_fraction<Rep> const& right) noexcept
{
  if (is_undefined(left) || is_undefined(right))
    return false;

  auto const lcm = std::lcm(left.denominator, right.denominator);

  return lcm / left.denominator * left.numerator
         <= lcm / right.denominator * right.numerator;
""", """constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                raw_fraction<Rep> const& right) noexcept
{
  if (!(is_defined(left) && is_defined(right)))
    return false;

  return !less(right, left);
"""),
    ("ops.hpp", """fast::divides(raw_fraction<Rep> const& left,
              raw_fraction<Rep> const& right) noexcept
{
  if (is_undefined(right))
    return {_0<Rep>, _0<Rep>};

  return {left.numerator * right.denominator,
          left.denominator * right.numerator};
""", """fast::divides(raw_fraction<Rep> const& left,
              raw_fraction<Rep> const& right) noexcept
{
  return is_defined(right) ? multiplies(left, reciprocal(right))
                           : raw_fraction<Rep>(_0<Rep>, _0<Rep>);
"""),
    ("ops.hpp", """safe::modulus(raw_fraction<Rep> const& left,
              raw_fraction<Rep> const& right) noexcept
{
  if (is_undefined(left) || is_undefined(right) || is_zero(right))
    return {_0<Rep>, _0<Rep>};

  auto const lcm = std::lcm(left.denominator, right.denominator);

  return {(lcm / left.denominator * left.numerator)
            % (lcm / right.denominator * right.numerator),
          lcm};
""", """safe::modulus(raw_fraction<Rep> const& left,
              raw_fraction<Rep> const& right) noexcept
{
  if (is_defined(left) && is_defined(right) && !is_zero(right))
  {
    auto const denominator = std::lcm(right.denominator, left.denominator);
    auto const dividend = denominator / left.denominator * left.numerator;
    auto const divisor = denominator / right.denominator * right.numerator;
    auto const quotient = dividend / divisor;

    return {dividend - quotient * divisor, denominator};
  }

  return {_0<Rep>, _0<Rep>};
"""),
    ("ops.hpp", """constexpr raw_fraction<Rep> safe::minus(Rep const& left,
                                        raw_fraction<Rep> const& right) noexcept
{
  return {left * right.denominator - right.numerator, right.denominator};
""", """constexpr raw_fraction<Rep> safe::minus(Rep const& left,
                                        raw_fraction<Rep> const& right) noexcept
{
  auto result = right;
  result.numerator = right.denominator * left - right.numerator;

  return result;
"""),
    ("ops.hpp", """constexpr bool safe::equal_to(raw_fraction<Rep> const& left,
                              Rep const& right) noexcept
{
  return left.numerator == right * left.denominator && is_defined(left);
""", """constexpr bool safe::equal_to(raw_fraction<Rep> const& left,
                              Rep const& right) noexcept
{
  if (left.denominator == _0<Rep>)
    return false;

  return left.numerator == left.denominator * right;
"""),
    ("math_utilities.hpp", """  return (value >= _0<Int>) ? value : -value;
""", """  if (value < _0<Int>)
    return static_cast<Int>(_0<Int> - value);

  return value;
"""),
    ("math_utilities.hpp", """  if (exponent == _0<Int>)
    return _1<Int>;

  if (exponent % _2<Int> == _1<Int>)
    return base * pow(base, exponent - _1<Int>);

  auto const squareRoot = pow(base, exponent / _2<Int>);

  return squareRoot * squareRoot;
""", """  auto result = _1<Int>;
  auto factor = base;

  for (auto rest = exponent;;)
  {
    if (rest % _2<Int> != _0<Int>)
      result *= factor;

    rest /= _2<Int>;

    if (rest == _0<Int>)
      return result;

    factor *= factor;
  }
"""),
    ("numbers.hpp", """static constexpr auto number = static_cast<T>(V);""", """inline constexpr T number = static_cast<T>(V);"""),
    ("hash.hpp", """  return hash(reduce(value.raw()));
""", """  auto const lowest_terms = reduce_normalize_signs(value.raw());

  return std::hash<raw_fraction<Rep>> {}(lowest_terms);
"""),
    ("parse_utilities.hpp", """    if (auto const lower_pos = remaining_string.find(lower);
        lower_pos != std::string_view::npos)
      return lower_pos;

    return remaining_string.find(upper);
""", """    char const separators[] = {lower, upper};

    return remaining_string.find_first_of(std::string_view(separators, 2));
"""),
    ("mixed_number.hpp", """  whole_ {is_undefined(value) ? _0<whole_type> : whole_type(trunc(value))},
  fractional_ {fractional_type(value - static_cast<OtherFRep>(whole_))}
{
""", """  fractional_ {fractional_type(value)}
{
  if (is_defined(value))
  {
    whole_ = static_cast<whole_type>(trunc(value));
    fractional_ = fractional_type(value - static_cast<OtherFRep>(whole_));
  }
"""),
    ("fraction_literals.hpp", """  return {left, static_cast<Rep>(right.value())};
""", """  auto const denominator = static_cast<Rep>(right.value());
  fraction<Rep, Ops> const result(left, denominator);

  return result;
"""),
    ("fraction_math.hpp", """  return {round(value * denominator), denominator};
""", """  auto const scaled = value * denominator;

  return fraction<Rep, Ops>(to_whole(scaled, round_mode::round), denominator);
"""),
]

# Operator dispatch, limits, durations and literals.
REFACTORS["dispatch"] = [
    ("fraction.hpp", """  if constexpr (std::is_same_v<LeftRep, RightRep>)                             \\
    return Ops::function(left.raw(), right);                                   \\
  else if constexpr (std::is_same_v<LeftRep, common_rep_type>)                 \\
    return Ops::function(left.raw(), static_cast<common_rep_type>(right));     \\
  else if constexpr (std::is_same_v<RightRep, common_rep_type>)                \\
    return Ops::function(static_cast<common_raw_type>(left.raw()), right);     \\
  else                                                                         \\
    return Ops::function(static_cast<common_raw_type>(left.raw()),             \\
                         static_cast<common_rep_type>(right));
""", """  common_raw_type const left_operand = left.raw();                             \\
  common_rep_type const right_operand = static_cast<common_rep_type>(right);   \\
                                                                               \\
  return Ops::function(left_operand, right_operand);
"""),
    ("fraction.hpp", """  if constexpr (std::is_same_v<LeftRep, RightRep>)                             \\
    return Ops::function(left, right.raw());                                   \\
  else if constexpr (std::is_same_v<LeftRep, common_rep_type>)                 \\
    return Ops::function(left, static_cast<common_raw_type>(right.raw()));     \\
  else if constexpr (std::is_same_v<RightRep, common_rep_type>)                \\
    return Ops::function(static_cast<common_rep_type>(left), right.raw());     \\
  else                                                                         \\
    return Ops::function(static_cast<common_rep_type>(left),                   \\
                         static_cast<common_raw_type>(right.raw()));
""", """  return Ops::function(static_cast<common_rep_type>(left),                     \\
                       static_cast<common_raw_type>(right.raw()));
"""),
    ("fraction.hpp", """    if constexpr (std::is_same_v<LeftRep, RightRep>)                           \\
      return left = left symbol right;                                         \\
    else                                                                       \\
      return left = left symbol static_cast<LeftRep>(right);                   \\
""", """    LeftRep const operand = static_cast<LeftRep>(right);                       \\
    auto const result = left symbol operand;                                   \\
                                                                               \\
    left = result;                                                             \\
                                                                               \\
    return left;                                                               \\
"""),
    ("limits.hpp", """  return {_1<Rep>, std::numeric_limits<Rep>::max()};
""", """  constexpr auto largest = std::numeric_limits<Rep>::max();

  return fraction_type(Rep(1), largest);
"""),
    ("limits.hpp", """constexpr auto limits<mixed_number<WRep, FRep, Ops>>::max() noexcept
  -> mixed_number_type
{
  return std::numeric_limits<WRep>::max();
""", """constexpr auto limits<mixed_number<WRep, FRep, Ops>>::max() noexcept
  -> mixed_number_type
{
  return {std::numeric_limits<WRep>::max(), fractional_type(_0<FRep>)};
"""),
    ("limits.hpp", """numeric_limits<ieme::fraction<Rep, Ops>>::lowest() noexcept
{
  return ieme::limits<ieme::fraction<Rep, Ops>>::min();
""", """numeric_limits<ieme::fraction<Rep, Ops>>::lowest() noexcept
{
  return min();
"""),
    ("limits.hpp", """numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
{
  return rep_limits_type::denorm_min();
""", """numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
{
  return fraction_type(rep_limits_type::denorm_min());
"""),
    ("chrono.hpp", """  return duration_like<std::chrono::duration<Rep, Period>, Ops>(duration);
""", """  using result_type = duration_like<std::chrono::duration<Rep, Period>, Ops>;

  fraction<Rep, Ops> const count = duration.count();

  return result_type(count);
"""),
    ("chrono.hpp", """  return time_point_like<std::chrono::time_point<Clock, Duration>, Ops>(
    time_point);
""", """  using result_type
    = time_point_like<std::chrono::time_point<Clock, Duration>, Ops>;

  typename result_type::duration const since_epoch(time_point.time_since_epoch());

  return result_type(since_epoch);
"""),
    ("fraction_literals.hpp", """  return -typename denominator_literal<true, Ops>::value_type(value.value());
""", """  using signed_type = typename denominator_literal<true, Ops>::value_type;

  return static_cast<signed_type>(signed_type {0}
                                  - static_cast<signed_type>(value.value()));
"""),
    ("fraction_literals.hpp", """  return is_defined(result) ? result : throw "invalid floating point literal";
""", """  if (is_undefined(result))
    throw "invalid floating point literal";

  return result;
"""),
    ("floating_point.hpp", """  if (!maybe_scan_results.has_value())
    return limits<fraction<Rep, Ops>>::undefined();

  auto const& scan_results = maybe_scan_results.value();
""", """  if (!maybe_scan_results)
    return {_0<Rep>, _0<Rep>};

  auto const scan_results = *maybe_scan_results;
"""),
    ("mixed_number.hpp", """  auto const whole = static_cast<whole_type>(left.whole())
                     + static_cast<whole_type>(right.whole());
  auto const fractional = static_cast<fractional_type>(left.fractional())
                          + static_cast<fractional_type>(right.fractional());

  return {whole, fractional};
""", """  whole_type whole = left.whole();
  whole += right.whole();

  fractional_type fractional = left.fractional();
  fractional += right.fractional();

  return mixed_number<whole_type, std::common_type_t<FRep1, FRep2>, Ops>(
    whole, fractional);
"""),
    ("mixed_number.hpp", """operator+(WRep1 const& left,
          mixed_number<WRep2, FRep, Ops> const& right) noexcept
{
  return right + left;
""", """operator+(WRep1 const& left,
          mixed_number<WRep2, FRep, Ops> const& right) noexcept
{
  using whole_type = std::common_type_t<WRep1, WRep2>;

  auto const whole
    = static_cast<whole_type>(left) + static_cast<whole_type>(right.whole());

  return {whole, right.fractional()};
"""),
]
