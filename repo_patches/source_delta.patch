From 747774f7ace0d34994e6e9faabfa309873552090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 01/12] fix: let stream errors escape the fraction stream
 operators instead of terminating

---
 include/ieme/fraction.hpp     | 12 ++++++------
 include/ieme/raw_fraction.hpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieme/fraction.hpp b/include/ieme/fraction.hpp
index 33b1062..abc0cad 100644
--- a/include/ieme/fraction.hpp
+++ b/include/ieme/fraction.hpp
@@ -18,11 +18,11 @@ class fraction;
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept;
+                         fraction<Rep, Ops> const& value);
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept;
+                         fraction<Rep, Ops>& value);
 
 
 template <typename Rep, typename Ops = ops::defaults>
@@ -68,10 +68,10 @@ private:
   raw_fraction_type raw_ = {_0<rep_type>, _1<rep_type>};
 
   friend std::ostream& operator<< <>(std::ostream& stream,
-                                     fraction<Rep, Ops> const& value) noexcept;
+                                     fraction<Rep, Ops> const& value);
 
   friend std::istream& operator>><>(std::istream& stream,
-                                    fraction<Rep, Ops>& value) noexcept;
+                                    fraction<Rep, Ops>& value);
 };
 
 template <typename Rep, typename Ops>
@@ -498,14 +498,14 @@ operator>=(fraction<LeftRep, LeftOps> const& left,
 
 template <typename Rep, typename Ops>
 std::ostream& operator<<(std::ostream& stream,
-                         fraction<Rep, Ops> const& value) noexcept
+                         fraction<Rep, Ops> const& value)
 {
   return stream << value.raw_;
 }
 
 template <typename Rep, typename Ops>
 std::istream& operator>>(std::istream& stream,
-                         fraction<Rep, Ops>& value) noexcept
+                         fraction<Rep, Ops>& value)
 {
   return stream >> value.raw_;
 }
diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index 86f96c1..e12cddd 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -27,11 +27,11 @@ struct raw_fraction {
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept;
+                         raw_fraction<Rep> const& value);
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept;
+                         raw_fraction<Rep>& value);
 
 
 // =============================================================================
@@ -56,14 +56,14 @@ constexpr raw_fraction<Rep>::raw_fraction(
 
 template <typename Rep>
 std::ostream& operator<<(std::ostream& stream,
-                         raw_fraction<Rep> const& value) noexcept
+                         raw_fraction<Rep> const& value)
 {
   return stream << value.numerator << '/' << value.denominator;
 }
 
 template <typename Rep>
 std::istream& operator>>(std::istream& stream,
-                         raw_fraction<Rep>& value) noexcept
+                         raw_fraction<Rep>& value)
 {
   stream >> value.numerator;
   stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
-- 
2.43.0


From ea83d6c3986c55955e6d9f6db4b374f64d232058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 02/12] fix: refuse text that is not integer/integer when
 extracting a fraction

---
 include/ieme/raw_fraction.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index e12cddd..faf27a2 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -65,9 +65,19 @@ template <typename Rep>
 std::istream& operator>>(std::istream& stream,
                          raw_fraction<Rep>& value)
 {
-  stream >> value.numerator;
-  stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
-  return stream >> value.denominator;
+  raw_fraction<Rep> result;
+  char separator = {};
+
+  if (stream >> result.numerator >> separator && separator != '/')
+  {
+    stream.unget();
+    stream.setstate(std::ios_base::failbit);
+  }
+
+  if (stream >> result.denominator)
+    value = result;
+
+  return stream;
 }
 
 
-- 
2.43.0


From 84170f2690f1c10791e6c7a37d677f17ae542323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 03/12] fix: give equal fractions equal hashes

---
 include/ieme/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..e936674 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -67,7 +67,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From 2eb2a53b977cf9aaddc79c131d00c8b7d39fb57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 04/12] fix: round values between -1 and 0 correctly in ceil,
 floor and round

---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..18ce8cd 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || !is_negative(value)) ? truncated
+                                                    : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 82d26f2d5da57f4776c3d28a54f30522ffca3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 05/12] fix: a fraction with a negative denominator is not
 reduced

---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From c35f0ca6db2779e5832491776659a53003783de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 06/12] fix: order fractions with negative denominators
 correctly

---
 include/ieme/ops.hpp | 51 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..31d81de 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -733,14 +733,20 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator < right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator < normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
@@ -760,14 +766,20 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator <= right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator <= normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
@@ -984,7 +996,10 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator < right.numerator * left.denominator
+  auto const l = normalize_signs(left);
+  auto const r = normalize_signs(right);
+
+  return l.numerator * r.denominator < r.numerator * l.denominator
          && is_defined(left) && is_defined(right);
 }
 
@@ -992,22 +1007,30 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator < right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator < normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator
-           <= right.numerator * left.denominator
+  auto const l = normalize_signs(left);
+  auto const r = normalize_signs(right);
+
+  return l.numerator * r.denominator <= r.numerator * l.denominator
          && is_defined(left) && is_defined(right);
 }
 
@@ -1015,14 +1038,20 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  auto const normalized = normalize_signs(left);
+
+  return normalized.numerator <= right * normalized.denominator
+         && is_defined(left);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  auto const normalized = normalize_signs(right);
+
+  return left * normalized.denominator <= normalized.numerator
+         && is_defined(right);
 }
 
 template <typename Rep>
-- 
2.43.0


From c557813d3b506791ad4c9023a85144ea5940a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 07/12] fix: undefined operands and zero divisors give
 undefined results instead of trapping

---
 include/ieme/ops.hpp               | 36 ++++++++++++++++++++++++++++++
 include/ieme/raw_fraction_math.hpp |  3 +++
 2 files changed, 39 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 31d81de..d901e41 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -550,6 +550,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -575,6 +578,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -624,6 +630,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -639,6 +648,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -647,6 +659,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -658,6 +673,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -665,6 +683,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -906,6 +927,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -921,6 +945,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -929,6 +956,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -938,6 +968,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -945,6 +978,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 4c6fd85..10ebe2d 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -38,6 +38,9 @@ reduce_ignore_signs(raw_fraction<Rep> const& value) noexcept;
 template <typename Rep>
 constexpr raw_fraction<Rep> reciprocal(raw_fraction<Rep> const& value) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {value.denominator, value.numerator};
 }
 
-- 
2.43.0


From 19100c7046de3c0a88f55e1967d7e4d3e98bf29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 08/12] fix: accept floating-point text with an exponent and no
 radix point

---
 include/ieme/parse_utilities.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..03a6601 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -64,7 +64,12 @@ scan_floating_point_string(std::string_view const string) noexcept
 
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const whole_end
+    = (radix_separator_pos == std::string_view::npos)
+        ? remaining_string.find_first_of((results.base == 10) ? "eE" : "pP")
+        : radix_separator_pos;
+
+  results.whole = remaining_string.substr(0, whole_end);
 
   auto const no_whole = results.whole.empty();
 
@@ -107,7 +112,8 @@ scan_floating_point_string(std::string_view const string) noexcept
   if (results.base == 16 && no_exponent_separator)
     return std::nullopt;
 
-  results.fractional = remaining_string.substr(0, exponent_separator_pos);
+  if (!no_radix_separator)
+    results.fractional = remaining_string.substr(0, exponent_separator_pos);
 
   auto const no_fractional = results.fractional.empty();
 
-- 
2.43.0


From 76050e4f2e5e048a539cf7a1f1a2c79a021da8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 09/12] fix: convert every representable float exactly and flag
 the others undefined

---
 include/ieme/floating_point.hpp | 41 +++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..bec86a8 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -184,29 +184,46 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (exponent_part == make_repeating_1s(NumExponentBits))
     return limits<fraction<Rep, Ops>>::undefined();
 
-  auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
+  auto const is_subnormal = exponent_part == _0<UintRep>;
+
+  auto significand = is_subnormal
+                       ? mantissa_part
+                       : mantissa_part | (_1<UintRep> << NumMantissaBits);
+
+  if (significand == _0<UintRep>)
+    return _0<Rep>;
 
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
+  // The value is the significand times 2 to the power of the exponent
+  auto exponent = (is_subnormal ? 1 : static_cast<int>(exponent_part))
+                  - exponent_bias - number<NumMantissaBits, int>;
+
+  for (; significand % _2<UintRep> == _0<UintRep>; ++exponent)
+    significand /= _2<UintRep>;
 
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
+  auto num_significand_bits = 0;
 
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
+  for (auto rest = significand; rest != _0<UintRep>; rest /= _2<UintRep>)
+    ++num_significand_bits;
 
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  static constexpr auto num_rep_bits = std::numeric_limits<Rep>::digits;
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  auto const is_representable
+    = num_significand_bits + ((exponent > 0) ? exponent : 0) <= num_rep_bits
+      && -exponent < num_rep_bits
+      && (sign_part == _0<UintRep> || std::numeric_limits<Rep>::is_signed);
+
+  if (!is_representable)
+    return limits<fraction<Rep, Ops>>::undefined();
+
+  auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return sign * static_cast<Rep>(significand) * pow2<Rep, Ops>(exponent);
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 6c7ea8a1e1de7e7da4347643628afd389735bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 10/12] fix: do not depend on putback support when refusing a
 separator

---
 include/ieme/raw_fraction.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index faf27a2..cbd1e3f 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -66,12 +66,13 @@ std::istream& operator>>(std::istream& stream,
                          raw_fraction<Rep>& value)
 {
   raw_fraction<Rep> result;
-  char separator = {};
 
-  if (stream >> result.numerator >> separator && separator != '/')
+  if (stream >> result.numerator && std::istream::sentry {stream})
   {
-    stream.unget();
-    stream.setstate(std::ios_base::failbit);
+    if (stream.peek() == '/')
+      stream.ignore();
+    else
+      stream.setstate(std::ios_base::failbit);
   }
 
   if (stream >> result.denominator)
-- 
2.43.0


From 926208cf7a8ec51a4cdd4daddff48d11deaeddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 11/12] fix: one exponent separator ends the whole part of
 floating-point text

Without a radix point the whole part ended at the first e or E, but the
exponent began after the first e even if an E came earlier, so the text in
between was ignored: "10E00e0" was read as 10.
---
 include/ieme/parse_utilities.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 03a6601..b14a88b 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -89,16 +89,8 @@ scan_floating_point_string(std::string_view const string) noexcept
   if (!no_radix_separator)
     remaining_string.remove_prefix(radix_separator_pos + 1);
 
-  auto const exponent_separator_pos = [&]() {
-    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-                                                     : std::make_pair('p', 'P');
-
-    if (auto const lower_pos = remaining_string.find(lower);
-        lower_pos != std::string_view::npos)
-      return lower_pos;
-
-    return remaining_string.find(upper);
-  }();
+  auto const exponent_separator_pos
+    = remaining_string.find_first_of((results.base == 10) ? "eE" : "pP");
 
   if (exponent_separator_pos == last_pos())
     return std::nullopt;
-- 
2.43.0


From 865ddad16001bf3c3579b2c3e3d16d6e803968e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 12/12] fix: do not overflow past the leading digit when
 converting digits

---
 include/ieme/parse_utilities.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index b14a88b..30a07ab 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -183,9 +183,8 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto it = sequence.begin(); it != sequence.end(); ++it)
   {
     if (*it == '\'')
       continue;
@@ -200,8 +199,7 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
       return static_cast<Int>(*it - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0

