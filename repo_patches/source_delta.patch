From 9115d10abd087a1fb708b0071a58dd2563fb8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 01/24] fix: support Uint(1) and Uint(128) in types,
 conversions and evaluation

---
 src/bms/concrete_type.hpp         | 6 +++---
 src/bms/concrete_value.hpp        | 5 ++---
 src/bms/evaluation/operations.cpp | 5 +++++
 src/bms/value.hpp                 | 4 ++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..5fb0129 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width >= 1);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..dc9bb16 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -51,7 +51,7 @@ public:
         if (other.is_uint()) {
             const auto truncated = Big_Uint(int_value) & other.get_mask();
             if (conversion == Conversion_Type::lossless_numeric
-                && truncated != Big_Uint(int_value)) {
+                && (int_value < 0 || truncated != Big_Uint(int_value))) {
                 return Evaluation_Error_Code::int_to_uint_range_error;
             }
             return Concrete_Value { other, Big_Int(truncated) };
@@ -62,8 +62,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..20273ea 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,11 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From db33e3227bdf48003ada96e6ca1d8dbbdec67d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 02/24] fix: report shifts by the operand width or more as
 shift_too_much

---
 src/bms/evaluation/operations.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 20273ea..d82cadc 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -390,6 +390,13 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
         case Expression_Type::not_equals: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        case Expression_Type::shift_left:
+        case Expression_Type::shift_right: {
+            if (Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+                return Evaluation_Error_Code::shift_too_much;
+            }
+            break;
+        }
         default: break;
         }
     }
-- 
2.43.0


From ee357c0558480e5a8f18130ea8ad192f47b6fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 03/24] fix: do not throw when the right operand is a known
 Uint and the left one is unknown

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index d82cadc..22b393c 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -533,11 +533,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        const Big_Uint rhs_bits = Big_Uint(rhs.concrete_value().int_value);
+        if ((op == division || op == remainder) && rhs_bits == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && rhs_bits >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From c439e13bf49575a879a3dde4624735b933d6e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 04/24] fix: evaluate equality comparisons of Bool operands

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 22b393c..2adfce7 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -410,6 +410,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         if (op == logical_or) {
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value || rhs.int_value) };
         }
+        if (op == equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+        }
+        if (op == not_equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Bool operation not caught by type-check.");
     }
 
-- 
2.43.0


From 880c1ba1094f00653cf772e17f8d007b60e4177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 05/24] fix: conversion is not a binary operator

---
 src/bms/expression_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/expression_type.hpp b/src/bms/expression_type.hpp
index 50d4287..9ed8449 100644
--- a/src/bms/expression_type.hpp
+++ b/src/bms/expression_type.hpp
@@ -144,7 +144,7 @@ enum struct Expression_Type : Default_Underlying {
 
 [[nodiscard]] constexpr bool is_binary(Expression_Type type) noexcept
 {
-    return Default_Underlying(type) >= Default_Underlying(Expression_Type::conversion)
+    return Default_Underlying(type) >= Default_Underlying(Expression_Type::logical_and)
         && Default_Underlying(type) <= Default_Underlying(Expression_Type::bitwise_xor);
 }
 
-- 
2.43.0


From 1fa5e262a552c6578ed849e3a98c3baf62c46544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 06/24] fix: do not take the type of a temporary by reference
 when evaluating a builtin function

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 2adfce7..336d83d 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -121,8 +121,9 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::random_access_iterator<Iter>);
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
-    const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+    // The iterators may yield prvalues, so the type needs to be returned by value here.
+    const auto types = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From 11beee3672be6754f9504d190f32f5075d8f35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 07/24] fix: parse integer literals exactly or reject them

Overflow of the multiplication was not detected reliably, upper case
hexadecimal digits were matched but not parsed, digits were not checked
against bases below ten, and literals of 2^127 or more became negative.
---
 src/common/parse.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..bab8f73 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -1,4 +1,5 @@
 #include <charconv>
+#include <limits>
 
 #include "common/assert.hpp"
 #include "common/parse.hpp"
@@ -13,9 +14,11 @@ static_assert(are_hex_digits_ascii);
 
 constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
-    auto old = x;
+    if (y != 0 && x > std::numeric_limits<Big_Uint>::max() / y) {
+        return false;
+    }
     x *= y;
-    return x >= old;
+    return true;
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
@@ -44,7 +47,7 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
 
     if (base <= 10) {
         for (char c : str) {
-            if (c < '0' || c > '9') {
+            if (c < '0' || Big_Uint(c - '0') >= base) {
                 return {};
             }
             if (!safe_mul(result, base)) {
@@ -72,6 +75,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
@@ -206,14 +214,17 @@ std::optional<Big_Int> parse_integer_literal(std::string_view str) noexcept
     if (str.empty()) {
         return std::nullopt;
     }
+    constexpr Big_Uint max = std::numeric_limits<Big_Int>::max();
     if (str.starts_with("-")) {
-        if (auto positive = parse_uinteger_literal(str.substr(1))) {
+        const auto positive = parse_uinteger_literal(str.substr(1));
+        if (positive && *positive <= max + 1) {
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<Big_Int>(-*positive);
         }
         return std::nullopt;
     }
-    if (auto result = parse_uinteger_literal(str)) {
+    const auto result = parse_uinteger_literal(str);
+    if (result && *result <= max) {
         return static_cast<Big_Int>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From 6494060b141fa26a723fb7e16f594b04a98ed5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:09 +0000
Subject: [PATCH 08/24] fix: && is two characters long and ! is one

---
 src/bms/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..ca431c1 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -228,6 +228,7 @@ namespace bit_manipulation::bms {
     case bitwise_or:
     case bitwise_not:
     case bitwise_xor:
+    case logical_not:
     case dot:
     case colon:
     case comma:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From 7446f400f5c02477576b693694b4c9c1cfd84900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 09/24] fix: parentheses and @ have a code name

---
 src/bms/util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index ca431c1..8326765 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -145,6 +145,8 @@ namespace bit_manipulation::bms {
     using enum Token_Type;
 
     switch (type) {
+    case left_parenthesis: return "(";
+    case right_parenthesis: return ")";
     case left_brace: return "{";
     case right_brace: return "}";
     case block_comment: return "/*";
@@ -175,6 +177,7 @@ namespace bit_manipulation::bms {
     case dot: return ".";
     case colon: return ":";
     case comma: return ",";
+    case at: return "@";
     case semicolon: return ";";
     case keyword_as: return "as";
     case keyword_let: return "let";
-- 
2.43.0


From 644ad63e8491557c612557122c3ee6b732079c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 10/24] fix: do not fail an assertion when a program ends with
 a block comment

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From 660988654fe4d2f963bd854c5a6ddb50b1496712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 11/24] fix: string literals may contain newlines and tabs,
 which advance the position accordingly

---
 src/bms/tokenization/tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From a07a4bbea8f95a70bacef295b52a06f25beb6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 12/24] fix: Result move assignment returns its left operand

Flowing off the end of operator= is undefined behaviour.
---
 src/common/result.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/result.hpp b/src/common/result.hpp
index 582e735..278312f 100644
--- a/src/common/result.hpp
+++ b/src/common/result.hpp
@@ -153,6 +153,7 @@ public:
             std::construct_at(std::addressof(m_value), std::move(other.m_value));
             m_has_value = true;
         }
+        return *this;
     }
 
     constexpr ~Result() noexcept(std::is_nothrow_destructible_v<T>
-- 
2.43.0


From 10b16b4d6b00c24a7b3b74b26a6a1d3597b27974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 13/24] fix: an HTML document without preamble or with an open
 tag is not done

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..2db0d2d 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -143,7 +143,7 @@ public:
     /// complete, `false` otherwise.
     bool is_done() const
     {
-        return (m_state != State::normal || m_state == State::new_line) && m_depth == 0
+        return (m_state == State::normal || m_state == State::new_line) && m_depth == 0
             && m_indent_depth == 0;
     }
 
-- 
2.43.0


From 89d91023815e79257bde492340acc25665854741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 14/24] fix: tag names of tags with attributes are tag
 identifiers

---
 src/bmd/html/html_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..2e1337e 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -123,7 +123,7 @@ Attribute_Writer HTML_Writer::begin_tag_with_attributes(Tag_Properties propertie
 
     indent(properties.style);
     m_out.write('<', HTML_Token_Type::tag_bracket);
-    m_out.write(properties.id, HTML_Token_Type::tag_bracket);
+    m_out.write(properties.id, HTML_Token_Type::tag_identifier);
 
     m_state = State::attributes;
 
-- 
2.43.0


From 488bc7f1fc4bda03aea73b268a7925ab5db46b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 15/24] fix: ampersands in HTML text are escaped

Text such as "&lt;" was displayed as "<".
---
 src/bmd/html/html_writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 2e1337e..41a502d 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -37,7 +37,7 @@ void HTML_Writer::write_escaped_text(std::string_view text)
     BIT_MANIPULATION_ASSERT(m_state == State::new_line || m_state == State::normal);
 
     while (!text.empty()) {
-        const Size bracket_pos = text.find_first_of("<>");
+        const Size bracket_pos = text.find_first_of("<>&");
         const std::string_view snippet = text.substr(0, std::min(text.length(), bracket_pos));
         m_out.write(snippet, HTML_Token_Type::inner_text);
         if (bracket_pos == std::string_view::npos) {
@@ -49,6 +49,9 @@ void HTML_Writer::write_escaped_text(std::string_view text)
         else if (text[bracket_pos] == '>') {
             m_out.write("&gt;", HTML_Token_Type::inner_text);
         }
+        else if (text[bracket_pos] == '&') {
+            m_out.write("&amp;", HTML_Token_Type::inner_text);
+        }
         else {
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Logical mistake.");
         }
-- 
2.43.0


From 18d4a07902b35905156a2a250608ca3ab105db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 16/24] fix: attribute values with any whitespace require
 quotes

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 2db0d2d..33859eb 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -14,7 +14,7 @@ namespace bit_manipulation::bmd {
 /// no wrapping, but `id="<x>"` requires `<x>` to be surrounded by quotes.
 inline bool requires_quotes_in_attribute(std::string_view value)
 {
-    return value.find_first_of("\"/'`=<> ") != std::string_view::npos;
+    return value.find_first_of("\"/'`=<> \t\n\f\r") != std::string_view::npos;
 }
 
 /// @brief The formatting style of an HTML tag.
-- 
2.43.0


From 8eaf93385de210925cdbb9dd3222d9f9beda4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 17/24] fix: quotes and ampersands in attribute values are
 escaped

---
 src/bmd/html/html_writer.cpp | 19 +++++++++++++++++--
 src/bmd/html/html_writer.hpp |  4 ++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 41a502d..4ade2f1 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -212,17 +212,32 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            write_escaped_attribute_value(value);
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            write_escaped_attribute_value(value);
         }
     }
 
     return *this;
 }
 
+void HTML_Writer::write_escaped_attribute_value(std::string_view value)
+{
+    while (!value.empty()) {
+        const Size special_pos = value.find_first_of("\"&");
+        const std::string_view snippet = value.substr(0, std::min(value.length(), special_pos));
+        m_out.write(snippet, HTML_Token_Type::attribute_value);
+        if (special_pos == std::string_view::npos) {
+            break;
+        }
+        m_out.write(value[special_pos] == '"' ? "&quot;" : "&amp;",
+                    HTML_Token_Type::attribute_value);
+        value = value.substr(special_pos + 1);
+    }
+}
+
 auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 33859eb..49daf58 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -211,6 +211,10 @@ private:
     /// @param text the text to write
     void write_escaped_text(std::string_view text);
 
+    /// @brief Like `write_escaped_text`, but for the value of an attribute: quotes and ampersands
+    /// are written as HTML entities.
+    void write_escaped_attribute_value(std::string_view value);
+
     void break_line();
     void indent(Formatting_Style style);
 };
-- 
2.43.0


From 088807aa742aa630bb9cf5f6f29a21df08b8d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:47 +0000
Subject: [PATCH 18/24] fix: block tags may have attributes

end_attributes broke the line while the writer was still in the attributes
state, which is an assertion failure.
---
 src/bmd/html/html_writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 4ade2f1..784b843 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -243,6 +243,7 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
     m_out.write('>', HTML_Token_Type::tag_bracket);
+    m_state = State::normal;
 
     if (is_block_like(style)) {
         break_line();
@@ -250,9 +251,6 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
             ++m_indent_depth;
         }
     }
-    else {
-        m_state = State::normal;
-    }
 
     ++m_depth;
 
-- 
2.43.0


From f205c2d5b7871401200bb5d0b07ff96e91a08d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 19/24] fix: superscript directives use the sup tag

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..986f9ad 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 37b12e3d0429de7d11edd4d3c9ce1064e6ef2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 20/24] fix: do not read past the directive table for unknown
 directives

---
 src/bmd/enums.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 986f9ad..5258066 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <iterator>
 
 #include "bmd/codegen/code_language.hpp"
 #include "bmd/directive_type.hpp"
@@ -190,7 +191,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From fd5310be4601cc3f0a47a1d72267a81073533764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 21/24] fix: the inline annotation is named inline

---
 src/bms/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 8326765..86a0130 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -512,7 +512,7 @@ namespace bit_manipulation::bms {
     using enum Annotation_Type;
     switch (type) {
         BIT_MANIPULATION_ENUM_STRING_CASE(immutable);
-        BIT_MANIPULATION_ENUM_STRING_CASE(inline_);
+    case inline_: return "inline";
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_variable);
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_step);
         BIT_MANIPULATION_ENUM_STRING_CASE(unroll);
-- 
2.43.0


From d03ed06a743afc9fd8bdc422d1b8081e35dae549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:56 +0000
Subject: [PATCH 22/24] fix: check the range of jumps that are taken, in both
 directions

---
 src/bms/vm/vm.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..9c69597 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -59,12 +59,12 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Relative_Jump& jump)
     {
-        if (Signed_Size(self.m_instruction_counter) + jump.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        // Unsigned arithmetic, so that negative targets are out of range as well.
+        const Size target = self.m_instruction_counter + Size(jump.offset) + 1;
+        if (target >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program, jump.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter) + jump.offset + 1);
+        self.m_instruction_counter = target;
         return {};
     }
 
@@ -78,14 +78,16 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
-        if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        if (jump_if.expected != bool(actual.int_value)) {
+            ++self.m_instruction_counter;
+            return {};
+        }
+        const Size target = self.m_instruction_counter + Size(jump_if.offset) + 1;
+        if (target >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter + 1)
-                   + (jump_if.expected == bool(actual.int_value) ? jump_if.offset : 0));
+        self.m_instruction_counter = target;
         return {};
     }
 
-- 
2.43.0


From 1a3b4f0d5bae0a1bcba1e8446e2c5a5473c57d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:56 +0000
Subject: [PATCH 23/24] fix: a call one past the end of the program is out of
 range

---
 src/bms/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 9c69597..c023ded 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -164,7 +164,7 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Call& call)
     {
-        if (call.address > self.m_instructions.size()) {
+        if (call.address >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::call_out_of_program, call.debug_info };
         }
         const auto return_address = Concrete_Value::Int(Big_Int(self.m_instruction_counter + 1));
-- 
2.43.0


From 50491f2e6544a3b168fca74772fb6ddf72ac34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:56 +0000
Subject: [PATCH 24/24] fix: do not report the operands of an earlier
 comparison for a failed assertion

---
 src/bms/vm/vm.cpp | 10 ++++++----
 src/bms/vm/vm.hpp |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index c023ded..dcbe45f 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -1,4 +1,5 @@
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "common/assert.hpp"
@@ -179,15 +180,16 @@ struct Cycle_Impl {
         if (params > self.m_stack.size()) {
             return Execution_Error { Execution_Error_Code::pop, call.debug_info };
         }
+        // The comparison only belongs to the very next assertion.
+        const std::optional<Comparison_Failure> comparison_failure
+            = std::exchange(self.m_comparison_failure_for_assert, std::nullopt);
         const Result<Concrete_Value, Evaluation_Error_Code> result = evaluate_builtin_function(
             call.function, std::span { self.m_stack.end() - int(params), self.m_stack.end() });
         if (!result) {
             Execution_Error error { result.error(), call.debug_info };
-            if (call.function != bms::Builtin_Function::assert
-                || !self.m_comparison_failure_for_assert) {
-                return error;
+            if (call.function == bms::Builtin_Function::assert) {
+                error.comparison_failure = comparison_failure;
             }
-            error.comparison_failure = self.m_comparison_failure_for_assert;
             return error;
         }
         self.m_stack.resize(self.m_stack.size() - params);
diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0

