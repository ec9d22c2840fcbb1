// Contracts of the lexical matchers: src/common/parse.hpp, src/common/parse.cpp
#include "lex.hpp"

VF_HARNESS(whitespace)
{
    const std::string_view s = vf_any_string("s");
    vf_hint(vf_rec_all_space, s.data());
    contract_whitespace(s, match_whitespace(s), vf_check);
    vf_cover("done");
}

// the primitive underneath, with both spellings of the whitespace set
VF_HARNESS(find_not_whitespace)
{
    const bool order = vf_choose("set", 2) != 0;
    const std::string_view s = vf_any_string("s");
    vf_hint(vf_rec_all_space, s.data());
    const Size n = s.find_first_not_of(order ? " \t\r\n" : " \r\t\n");
    vf_check(n == std::string_view::npos || n < s.size(), "a position in the string or none");
    contract_whitespace(s, std::min(n, s.size()), vf_check);
    vf_cover("done");
}

VF_HARNESS(identifier)
{
    const std::string_view s = vf_any_string("s");
    vf_hint(vf_rec_all_ident, s.data());
    vf_mention(vf_rec_all_ident, s.data(), 1);
    contract_identifier(s, match_identifier(s), vf_check);
}

VF_HARNESS(is_identifier)
{
    const std::string_view s = vf_any_string("s");
    vf_hint(vf_rec_all_ident, s.data());
    vf_mention(vf_rec_all_ident, s.data(), 1);
    const bool r = is_identifier(s);
    const bool e = !s.empty() && !rng(s[0], '0', '9') && vf_rec_all_ident(s.data(), s.size());
    vf_check(r == e, "identifiers are nonempty, do not start with a digit, and consist of letters, digits and underscores");
    if (r) {
        vf_cover("identifier");
    }
    else {
        vf_cover("no identifier");
    }
}

VF_HARNESS(is_html_identifier)
{
    const std::string_view s = vf_any_string("s");
    vf_hint(vf_rec_all_html, s.data());
    vf_mention(vf_rec_all_html, s.data(), 1);
    const bool r = is_html_identifier(s);
    const bool e = !s.empty() && !rng(s[0], '0', '9') && vf_rec_all_html(s.data(), s.size());
    vf_check(r == e, "HTML identifiers may also contain hyphens");
    if (r) {
        vf_cover("identifier");
    }
}

VF_HARNESS(line_comment)
{
    const std::string_view s = vf_any_string("s");
    vf_hint(vf_rec_all_not_nl, s.data());
    vf_mention(vf_rec_all_not_nl, s.data(), 2);
    contract_line_comment(s, match_line_comment(s), vf_check);
}

VF_HARNESS(block_comment)
{
    const std::string_view s = vf_any_string("s");
    vf_hint_off(vf_rec_all_block, s.data(), 1);
    vf_mention(vf_rec_all_block, s.data(), 3);
    contract_block_comment(s, match_block_comment(s), vf_check);
}

VF_HARNESS(string_literal)
{
    const std::string_view s = vf_any_string("s");
    vf_hint_value(vf_rec_escaped, s.data());
    vf_mention(vf_rec_all_open, s.data(), 1);
    vf_hint(vf_rec_all_open, s.data());
    contract_string_literal(s, match_string_literal(s), vf_check);
}

template <int base>
void check_digits(std::string_view s, bool (*all)(const char*, unsigned long) noexcept)
{
    const Size n = match_digits(s, base);
    vf_check(n <= s.size(), "the match lies within the string");
    vf_check(all(s.data(), n), "everything matched is a digit of the base");
    vf_check(n == s.size() || !digit(s[n], base), "the match is maximal");
    vf_cover("done");
}

VF_HARNESS(digits)
{
    const unsigned k = vf_choose("base", 10);
    const std::string_view s = vf_any_string("s");
#define BASE_CASE(i, b)                                                                                                        \
    case i:                                                                                                                    \
        vf_hint(vf_rec_all_d##b, s.data());                                                                                    \
        check_digits<b>(s, vf_rec_all_d##b);                                                                                   \
        break
    switch (k) {
        BASE_CASE(0, 2);
        BASE_CASE(1, 3);
        BASE_CASE(2, 4);
        BASE_CASE(3, 5);
        BASE_CASE(4, 6);
        BASE_CASE(5, 7);
        BASE_CASE(6, 8);
        BASE_CASE(7, 9);
        BASE_CASE(8, 10);
        BASE_CASE(9, 16);
    }
}

VF_HARNESS(char_classes)
{
    const char c = vf_any<char>("c");
    vf_check(is_decimal_digit(c) == rng(c, '0', '9'), "decimal digits");
    vf_check(is_space(c) == sp(c), "whitespace");
    vf_cover("done");
}

VF_HARNESS(integer_literal)
{
    const std::string_view s = vf_any_string("s");
    const Lit p = literal_prefix(s);
    if (s.size() >= p.prefix) {
        const auto all = p.base == 2 ? vf_rec_all_d2 : p.base == 8 ? vf_rec_all_d8 : p.base == 10 ? vf_rec_all_d10 : vf_rec_all_d16;
        vf_hint(all, s.data() + p.prefix);
        vf_mention(all, s.data() + p.prefix, 1);
    }
    contract_integer_literal(s, match_integer_literal(s), vf_check);
}

// ---- P07: the value of integer literals -------------------------------------------------------------
namespace {

unsigned digit_value(char c)
{
    return unsigned(rng(c, '0', '9') ? c - '0' : rng(c, 'a', 'f') ? c - 'a' + 10 : c - 'A' + 10);
}

} // namespace

// val(k): value of the first k digits (modulo 2^128); fits(k): they are digits and their value is below 2^128
#define GHOST_VALUE(base)                                                                                                      \
    extern "C" vf_u128 vf_rec_value##base(const char* s, unsigned long k) noexcept                                             \
    {                                                                                                                          \
        return k == 0 ? 0 : vf_rec_value##base(s, k - 1) * base + digit_value(s[k - 1]);                                       \
    }                                                                                                                          \
    extern "C" bool vf_rec_all_fits##base(const char* s, unsigned long k) noexcept                                             \
    {                                                                                                                          \
        constexpr vf_u128 q = ~vf_u128(0) / base, r = ~vf_u128(0) % base;                                                      \
        if (k == 0) {                                                                                                          \
            return true;                                                                                                       \
        }                                                                                                                      \
        const vf_u128 v = vf_rec_value##base(s, k - 1);                                                                        \
        return bool(int(vf_rec_all_fits##base(s, k - 1)) & int(digit(s[k - 1], base))                                          \
                    & (int(v < q) | (int(v == q) & int(digit_value(s[k - 1]) <= r))));                                         \
    }
GHOST_VALUE(2)
GHOST_VALUE(8)
GHOST_VALUE(10)
GHOST_VALUE(16)

namespace {

template <typename F, typename V>
void check_uinteger(std::string_view s, Size prefix, F fits, V value)
{
    const char* const d = s.data() + prefix;
    const Size n = s.size() - prefix;
    vf_hint(fits, d);
    vf_hint_value(value, d);
    vf_mention(fits, d, 1);
    const std::optional<Big_Uint> r = parse_uinteger_literal(s);
    vf_check(r.has_value() == (n != 0 && fits(d, n)), "exactly the literals with a value below 2^128 are accepted");
    if (r) {
        vf_check(vf_u128(*r) == value(d, n), "the value is exact");
        vf_cover("accepted");
    }
    else {
        vf_cover("rejected");
    }
}

template <typename F, typename V>
void check_integer(std::string_view s, Size prefix, bool negative, F fits, V value)
{
    const char* const d = s.data() + prefix;
    const Size n = s.size() - prefix;
    vf_hint(fits, d);
    vf_hint_value(value, d);
    vf_mention(fits, d, 1);
    const std::optional<Big_Int> r = parse_integer_literal(s);
    const vf_u128 lim = (vf_u128(1) << 127) - (negative ? 0 : 1);
    vf_check(r.has_value() == (n != 0 && fits(d, n) && value(d, n) <= lim),
             "exactly the literals that an Int can represent are accepted");
    if (r) {
        vf_check(vf_u128(*r) == (negative ? -value(d, n) : value(d, n)), "the value is exact");
        vf_cover("accepted");
    }
    else {
        vf_cover("rejected");
    }
}

} // namespace

#define BY_BASE(call, s, ...)                                                                                                  \
    switch (base) {                                                                                                            \
    case 2: call(s, __VA_ARGS__, vf_rec_all_fits2, vf_rec_value2); break;                                                      \
    case 8: call(s, __VA_ARGS__, vf_rec_all_fits8, vf_rec_value8); break;                                                      \
    case 10: call(s, __VA_ARGS__, vf_rec_all_fits10, vf_rec_value10); break;                                                   \
    default: call(s, __VA_ARGS__, vf_rec_all_fits16, vf_rec_value16); break;                                                   \
    }

VF_HARNESS(uinteger_value)
{
    static constexpr int bases[] { 2, 8, 10, 16 };
    const int base = bases[vf_choose("base", 4)];
    const std::string_view s = vf_any_string("s");
    const Lit p = literal_prefix(s);
    vf_assume(p.base == base);
    BY_BASE(check_uinteger, s, p.prefix)
}

VF_HARNESS(integer_value)
{
    static constexpr int bases[] { 2, 8, 10, 16 };
    const int base = bases[vf_choose("base", 4)];
    const bool negative = vf_choose("negative", 2) != 0;
    const std::string_view s = vf_any_string("s");
    vf_assume(negative == (!s.empty() && s[0] == '-'));
    const Lit p = literal_prefix(negative ? s.substr(1) : s);
    vf_assume(p.base == base);
    const Size prefix = p.prefix + (negative ? 1 : 0);
    BY_BASE(check_integer, s, prefix, negative)
}
