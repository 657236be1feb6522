From 634aad9c81a2ae21dd71f61565efc203c44043a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 01/13] fix: order fractions with negative denominators
 correctly

The ordering comparisons of the fast policy, and those between a fraction
and a whole number in both policies, multiplied the inequality by a
denominator without regard to its sign, so that e.g. 1/-2 < 0 was false.
---
 include/ieme/ops.hpp | 53 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..f13df29 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -733,14 +733,20 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator < right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator < normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
@@ -760,14 +766,20 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator <= right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator <= normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
@@ -984,7 +996,11 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator < right.numerator * left.denominator
+  auto const normalized_left = normalize_signs(left);
+  auto const normalized_right = normalize_signs(right);
+
+  return normalized_left.numerator * normalized_right.denominator
+           < normalized_right.numerator * normalized_left.denominator
          && is_defined(left) && is_defined(right);
 }
 
@@ -992,22 +1008,31 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator < right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator < normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator
-           <= right.numerator * left.denominator
+  auto const normalized_left = normalize_signs(left);
+  auto const normalized_right = normalize_signs(right);
+
+  return normalized_left.numerator * normalized_right.denominator
+           <= normalized_right.numerator * normalized_left.denominator
          && is_defined(left) && is_defined(right);
 }
 
@@ -1015,14 +1040,20 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator <= right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator <= normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
-- 
2.43.0


From 82e6f6b44e35967deb33e9977a4e9add51ba87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 02/13] fix: return undefined instead of trapping for undefined
 operands and zero divisors

plus and minus of the safe policy and modulus of both policies divided by
zero (SIGFPE) when an operand was undefined or the divisor was zero, while
the limits promise that fractions do not trap.
---
 include/ieme/ops.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index f13df29..3eb8c93 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -550,6 +550,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -575,6 +578,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -647,6 +653,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -658,6 +667,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -665,6 +677,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -929,6 +944,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -938,6 +956,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -945,6 +966,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From 23fc6fd088e26e2a9de2bd96f7a4350f17ddba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 03/13] fix: dividing by an undefined fraction gives an
 undefined fraction

Swapping the components of an undefined divisor with a non-zero numerator
made the quotient a well-defined zero.
---
 include/ieme/ops.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 3eb8c93..5224641 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -630,6 +630,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -645,6 +648,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -921,6 +927,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -936,6 +945,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
-- 
2.43.0


From b2254482d9d541edbc94998c17cf2d14aee99b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 04/13] fix: floor and ceil of values between minus one and one

Both looked at the sign of the truncated value, which is zero there, so
that floor(-1/2) was 0 and ceil(-1/2) was 1.
---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..06336a0 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                  : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || is_positive(value)) ? truncated
+                                                  : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From aa5560e5003b850542f0ef4dfe065bcc4b302b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 05/13] fix: a fraction with a negative denominator is not
 reduced

is_reduced accepted a positive numerator over a negative denominator,
which reduce turns into something else.
---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 01ecc5236e210020d3ef1fa30225ae06aed74a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 06/13] fix: equal fractions have equal hashes

1/2 and 2/4 compare equal but were hashed by their components, so that
unordered containers held them as distinct keys.
---
 include/ieme/hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..35cb85d 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -4,6 +4,7 @@
 #include <ieme/fraction.hpp>
 #include <ieme/mixed_number.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_math.hpp>
 
 #include <functional>
 
@@ -67,7 +68,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From 7eed071ff3bfb9e4172ea20b68bf2505499d7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 07/13] fix: to_fraction is exact for every representable value

The mantissa was turned into a fraction over 2^23 (2^52) and multiplied by
the power of two, which overflowed for values that fit easily (16777215.0f
became -1), made zero -1/-2147483648 and did not compile for
to_fraction<int>(double). Build the fraction from the odd part of the
significand instead; infinities are undefined like NaN.
---
 include/ieme/floating_point.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..a584f89 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -184,29 +184,33 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (auto const is_NaN_or_infinity
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_NaN_or_infinity)
     return limits<fraction<Rep, Ops>>::undefined();
 
-  auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
-
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
+  auto const is_subnormal = exponent_part == _0<UintRep>;
 
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
+  auto significand
+    = is_subnormal ? mantissa_part
+                   : mantissa_part | (_1<UintRep> << UintRep(NumMantissaBits));
 
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
+  if (significand == _0<UintRep>)
+    return _0<Rep>;
 
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  auto exponent = (is_subnormal ? 1 : static_cast<int>(exponent_part))
+                  - exponent_bias - number<NumMantissaBits, int>;
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  // An odd significand keeps both components as small as possible
+  for (; significand % _2<UintRep> == _0<UintRep>; significand /= _2<UintRep>)
+    ++exponent;
+
+  auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return sign * static_cast<Rep>(significand) * pow2<Rep, Ops>(exponent);
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 72f4b922b19dcaa6538bc3e9a5ae27a5215a7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 08/13] fix: make every header self-contained

ieme.hpp, floating_point.hpp, fraction_literals.hpp and parse_utilities.hpp
did not compile on their own, and reduce from raw_fraction_math.hpp could
not be instantiated.
---
 include/ieme/floating_point.hpp    | 1 +
 include/ieme/parse_utilities.hpp   | 2 ++
 include/ieme/raw_fraction_math.hpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index a584f89..38052b2 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -9,6 +9,7 @@
 
 #include <bit>
 #include <cstdint>
+#include <cstring>
 #include <limits>
 #include <string>
 #include <string_view>
diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..ca29da4 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -1,6 +1,8 @@
 #ifndef IEME_PARSE_UTILITIES_HPP
 #define IEME_PARSE_UTILITIES_HPP
 
+#include <ieme/numbers.hpp>
+
 #include <optional>
 #include <string_view>
 #include <utility>
diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 4c6fd85..fd224ce 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -3,6 +3,7 @@
 
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_queries.hpp>
 #include <ieme/reduce_mode.hpp>
 
 #include <numeric>
-- 
2.43.0


From 2507df14cee7e4cd03cec6ef37df74434cfe9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 09/13] fix: no overflow when parsing digit sequences near the
 limits

The base was multiplied into its power once more after the last digit,
which overflowed for values that fit and made such literals ill-formed.
---
 include/ieme/parse_utilities.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index ca29da4..ece7ac4 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -187,9 +187,8 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto it = sequence.begin(); it != sequence.end(); ++it)
   {
     if (*it == '\'')
       continue;
@@ -204,8 +203,7 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
       return static_cast<Int>(*it - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0


From abd0bbce65a00c647827680249ae690e7ff3ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 10/13] fix: accept floating literals without a radix separator

Literals such as 5e3 or 0xAp3 are valid floating literals but the whole
string was taken for the whole part, so that they were rejected.
---
 include/ieme/parse_utilities.hpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index ece7ac4..2b4f742 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -66,7 +66,21 @@ scan_floating_point_string(std::string_view const string) noexcept
 
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const find_exponent_separator = [&]() {
+    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
+                                                     : std::make_pair('p', 'P');
+
+    if (auto const lower_pos = remaining_string.find(lower);
+        lower_pos != std::string_view::npos)
+      return lower_pos;
+
+    return remaining_string.find(upper);
+  };
+
+  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
+
+  results.whole = remaining_string.substr(
+    0, no_radix_separator ? find_exponent_separator() : radix_separator_pos);
 
   auto const no_whole = results.whole.empty();
 
@@ -81,21 +95,10 @@ scan_floating_point_string(std::string_view const string) noexcept
     return std::nullopt;
   }
 
-  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
-
   if (!no_radix_separator)
     remaining_string.remove_prefix(radix_separator_pos + 1);
 
-  auto const exponent_separator_pos = [&]() {
-    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-                                                     : std::make_pair('p', 'P');
-
-    if (auto const lower_pos = remaining_string.find(lower);
-        lower_pos != std::string_view::npos)
-      return lower_pos;
-
-    return remaining_string.find(upper);
-  }();
+  auto const exponent_separator_pos = find_exponent_separator();
 
   if (exponent_separator_pos == last_pos())
     return std::nullopt;
@@ -109,7 +112,8 @@ scan_floating_point_string(std::string_view const string) noexcept
   if (results.base == 16 && no_exponent_separator)
     return std::nullopt;
 
-  results.fractional = remaining_string.substr(0, exponent_separator_pos);
+  if (!no_radix_separator)
+    results.fractional = remaining_string.substr(0, exponent_separator_pos);
 
   auto const no_fractional = results.fractional.empty();
 
-- 
2.43.0


From 9893729963621fb89310c7ebd4aa8bba450e6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 11/13] fix: limits of mixed numbers

The specialisations named template parameters mixed_number does not have
and could not be instantiated; undefined() could not work because mixed
numbers divided by zero when built from an undefined fractional part.
---
 include/ieme/limits.hpp       | 112 +++++++++++++++++-----------------
 include/ieme/mixed_number.hpp |   5 +-
 2 files changed, 61 insertions(+), 56 deletions(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index 4e0389a..2b69878 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -29,14 +29,15 @@ public:
   static constexpr fraction_type undefined() noexcept;
 };
 
-template <typename Rep, typename Ops>
-class limits<mixed_number<Rep, Ops>> {
+template <typename WRep, typename FRep, typename Ops>
+class limits<mixed_number<WRep, FRep, Ops>> {
 
 public:
-  using rep_type = Rep;
+  using whole_type = WRep;
+  using fractional_rep_type = FRep;
   using ops_type = Ops;
-  using mixed_number_type = mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = mixed_number<WRep, FRep, Ops>;
+  using fractional_type = typename mixed_number_type::fractional_type;
 
   static constexpr mixed_number_type min() noexcept;
   static constexpr mixed_number_type max() noexcept;
@@ -93,12 +94,12 @@ public:
   static constexpr fraction_type denorm_min() noexcept;
 };
 
-template <typename Rep, typename Ops>
-class numeric_limits<ieme::mixed_number<Rep, Ops>> {
+template <typename WRep, typename FRep, typename Ops>
+class numeric_limits<ieme::mixed_number<WRep, FRep, Ops>> {
 
 public:
-  using mixed_number_type = ieme::mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = ieme::mixed_number<WRep, FRep, Ops>;
+  using fraction_type = ieme::fraction<WRep, Ops>;
   using fraction_limits_type = numeric_limits<fraction_type>;
 
   static constexpr bool is_specialized = fraction_limits_type::is_specialized;
@@ -106,8 +107,9 @@ public:
   static constexpr bool is_integer = fraction_limits_type::is_integer;
   static constexpr bool is_exact = fraction_limits_type::is_exact;
   static constexpr bool has_infinity = fraction_limits_type::has_infinity;
-  static constexpr bool has_quiet_ = fraction_limits_type::has_quiet_;
-  static constexpr bool has_signaling_ = fraction_limits_type::has_signaling_;
+  static constexpr bool has_quiet_NaN = fraction_limits_type::has_quiet_NaN;
+  static constexpr bool has_signaling_NaN
+    = fraction_limits_type::has_signaling_NaN;
   static constexpr float_denorm_style has_denorm
     = fraction_limits_type::has_denorm;
   static constexpr bool has_denorm_loss = fraction_limits_type::has_denorm_loss;
@@ -172,32 +174,32 @@ constexpr auto limits<fraction<Rep, Ops>>::undefined() noexcept -> fraction_type
   return {_0<Rep>, _0<Rep>};
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::max() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::max() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::max();
+  return std::numeric_limits<WRep>::max();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::min() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::min();
+  return std::numeric_limits<WRep>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::smallest() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::smallest() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::smallest();
+  return {_0<WRep>, limits<fractional_type>::smallest()};
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::undefined() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::undefined() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::undefined();
+  return {_0<WRep>, limits<fractional_type>::undefined()};
 }
 
 
@@ -270,65 +272,65 @@ numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
   return rep_limits_type::denorm_min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::min() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::lowest() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::lowest() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::max() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::max() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::max();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::max();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::epsilon() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::epsilon() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::smallest();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::smallest();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::round_error() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::round_error() noexcept
 {
   return fraction_limits_type::round_error();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::infinity() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::infinity() noexcept
 {
   return fraction_limits_type::infinity();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::quiet_NaN() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::quiet_NaN() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::undefined();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::undefined();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::signaling_NaN() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::signaling_NaN() noexcept
 {
   return fraction_limits_type::signaling_NaN();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::denorm_min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::denorm_min() noexcept
 {
   return fraction_limits_type::denorm_min();
 }
diff --git a/include/ieme/mixed_number.hpp b/include/ieme/mixed_number.hpp
index 9562c6e..56a43ff 100644
--- a/include/ieme/mixed_number.hpp
+++ b/include/ieme/mixed_number.hpp
@@ -106,7 +106,7 @@ template <typename WRep, typename FRep, typename Ops>
 template <typename OtherFRep>
 constexpr mixed_number<WRep, FRep, Ops>::mixed_number(
   fraction<OtherFRep, ops_type> const& value) noexcept :
-  whole_ {whole_type(trunc(value))},
+  whole_ {is_undefined(value) ? _0<whole_type> : whole_type(trunc(value))},
   fractional_ {fractional_type(value - static_cast<OtherFRep>(whole_))}
 {
 }
@@ -152,6 +152,9 @@ constexpr auto mixed_number<WRep, FRep, Ops>::fractional() const noexcept
 template <typename WRep, typename FRep, typename Ops>
 constexpr void mixed_number<WRep, FRep, Ops>::fix() noexcept
 {
+  if (is_undefined(fractional_))
+    return;
+
   if (is_improper(fractional_))
   {
     auto const truncated_fractional = trunc(fractional_);
-- 
2.43.0


From edc264444f80335409ce6a26cb35d4196eaa8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 12/13] fix: no overflow while normalising mixed numbers

---
 include/ieme/mixed_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/mixed_number.hpp b/include/ieme/mixed_number.hpp
index 56a43ff..cb0f8d1 100644
--- a/include/ieme/mixed_number.hpp
+++ b/include/ieme/mixed_number.hpp
@@ -159,7 +159,7 @@ constexpr void mixed_number<WRep, FRep, Ops>::fix() noexcept
   {
     auto const truncated_fractional = trunc(fractional_);
 
-    whole_ += static_cast<whole_type>(truncated_fractional);
+    whole_ = static_cast<whole_type>(whole_ + truncated_fractional);
     fractional_ -= truncated_fractional;
   }
 
-- 
2.43.0


From d72ff868ec455fbd0e2bc0da56cc17549e712166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 13/13] fix: stream operators let stream exceptions through

---
 include/ieme/fraction.hpp     | 12 ++++++------
 include/ieme/raw_fraction.hpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieme/fraction.hpp b/include/ieme/fraction.hpp
index 33b1062..abc0cad 100644
--- a/include/ieme/fraction.hpp
+++ b/include/ieme/fraction.hpp
@@ -18,11 +18,11 @@ class fraction;
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept;
+                         fraction<Rep, Ops> const& value);
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept;
+                         fraction<Rep, Ops>& value);
 
 
 template <typename Rep, typename Ops = ops::defaults>
@@ -68,10 +68,10 @@ private:
   raw_fraction_type raw_ = {_0<rep_type>, _1<rep_type>};
 
   friend std::ostream& operator<< <>(std::ostream& stream,
-                                     fraction<Rep, Ops> const& value) noexcept;
+                                     fraction<Rep, Ops> const& value);
 
   friend std::istream& operator>><>(std::istream& stream,
-                                    fraction<Rep, Ops>& value) noexcept;
+                                    fraction<Rep, Ops>& value);
 };
 
 template <typename Rep, typename Ops>
@@ -498,14 +498,14 @@ operator>=(fraction<LeftRep, LeftOps> const& left,
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept
+                         fraction<Rep, Ops> const& value)
 {
   return stream << value.raw_;
 }
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept
+                         fraction<Rep, Ops>& value)
 {
   return stream >> value.raw_;
 }
diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index 86f96c1..e12cddd 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -27,11 +27,11 @@ struct raw_fraction {
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept;
+                         raw_fraction<Rep> const& value);
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept;
+                         raw_fraction<Rep>& value);
 
 
 // =============================================================================
@@ -56,14 +56,14 @@ constexpr raw_fraction<Rep>::raw_fraction(
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept
+                         raw_fraction<Rep> const& value)
 {
   return stream << value.numerator << '/' << value.denominator;
 }
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept
+                         raw_fraction<Rep>& value)
 {
   stream >> value.numerator;
   stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
-- 
2.43.0

