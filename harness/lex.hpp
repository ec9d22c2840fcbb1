// Ghost functions and contracts of the lexical matchers (src/common/parse.hpp); the proofs are in lex.cpp, the
// tokenizers (tok.cpp) are verified against these contracts.
#pragma once
#include "vf.hpp"

#include "common/parse.hpp"

using namespace bit_manipulation;

namespace {

bool sp(char c)
{
    return bool(int(c == ' ') | int(c == '\t') | int(c == '\r') | int(c == '\n'));
}

bool rng(char c, char lo, char hi)
{
    return bool(int(c >= lo) & int(c <= hi));
}

bool ident(char c)
{
    return bool(int(rng(c, 'a', 'z')) | int(rng(c, 'A', 'Z')) | int(rng(c, '0', '9')) | int(c == '_'));
}

// is c a digit of the given base (base 16: either case)?
bool digit(char c, int base)
{
    if (base == 16) {
        return bool(int(rng(c, '0', '9')) | int(rng(c, 'a', 'f')) | int(rng(c, 'A', 'F')));
    }
    return rng(c, '0', char('0' + base - 1));
}

} // namespace

// "the first k characters are all ..." (prefix closed ghost predicates)
#define GHOST_ALL(name, test)                                                                                                  \
    extern "C" bool vf_rec_all_##name(const char* s, unsigned long k) noexcept                                                 \
    {                                                                                                                          \
        return k == 0 ? true : bool(int(vf_rec_all_##name(s, k - 1)) & int(test(s[k - 1])));                                   \
    }

#define NOT_NL(c) ((c) != '\n')
#define D2(c) digit(c, 2)
#define D3(c) digit(c, 3)
#define D4(c) digit(c, 4)
#define D5(c) digit(c, 5)
#define D6(c) digit(c, 6)
#define D7(c) digit(c, 7)
#define D8(c) digit(c, 8)
#define D9(c) digit(c, 9)
#define D10(c) digit(c, 10)
#define D16(c) digit(c, 16)
GHOST_ALL(space, sp)
GHOST_ALL(ident, ident)
GHOST_ALL(not_nl, NOT_NL)
#define HTML_IDENT(c) bool(int(ident(c)) | int((c) == '-'))
GHOST_ALL(html, HTML_IDENT)

// no "*/" starts at position 2 or later and lies within the first k characters
extern "C" bool vf_rec_all_block(const char* s, unsigned long k) noexcept
{
    if (k == 0) {
        return true;
    }
    const bool rest = vf_rec_all_block(s, k - 1);
    return k < 4 ? rest : bool(int(rest) & int(bool(int(s[k - 2] != '*') | int(s[k - 1] != '/'))));
}

// string literals (s[0] is the opening quote): is the character after the first k escaped?
extern "C" unsigned char vf_rec_escaped(const char* s, unsigned long k) noexcept
{
    if (k <= 1) {
        return 0;
    }
    return (unsigned char)(int(vf_rec_escaped(s, k - 1) == 0) & int(s[k - 1] == '\\'));
}

// no unescaped quote among the characters 1 to k - 1
extern "C" bool vf_rec_all_open(const char* s, unsigned long k) noexcept
{
    if (k == 0) {
        return true;
    }
    const bool rest = vf_rec_all_open(s, k - 1);
    return k == 1 ? rest : bool(int(rest) & (int(vf_rec_escaped(s, k - 1) != 0) | int(s[k - 1] != '"')));
}

GHOST_ALL(d2, D2)
GHOST_ALL(d3, D3)
GHOST_ALL(d4, D4)
GHOST_ALL(d5, D5)
GHOST_ALL(d6, D6)
GHOST_ALL(d7, D7)
GHOST_ALL(d8, D8)
GHOST_ALL(d9, D9)
GHOST_ALL(d10, D10)
GHOST_ALL(d16, D16)

// the digits of an integer literal after its prefix, and its base
namespace {

struct Lit {
    Literal_Type type;
    Size prefix;
    int base;
};

Lit literal_prefix(std::string_view s)
{
    if (s.size() >= 2 && s[0] == '0' && s[1] == 'b') {
        return { Literal_Type::binary, 2, 2 };
    }
    if (s.size() >= 2 && s[0] == '0' && s[1] == 'x') {
        return { Literal_Type::hexadecimal, 2, 16 };
    }
    if (s.size() >= 1 && s[0] == '0') {
        return { Literal_Type::octal, 0, 8 };
    }
    return { Literal_Type::decimal, 0, 10 };
}

} // namespace


// ---- contracts: `ck` is vf_check in the proof and vf_assume where a caller uses the contract ----------------

template <typename C>
void contract_whitespace(std::string_view s, Size n, C ck)
{
    ck(n <= s.size(), "the match lies within the string");
    ck(vf_rec_all_space(s.data(), n), "everything matched is whitespace");
    ck(bool(int(n >= s.size()) | int(n >= s.size() || !sp(s[n]))), "the match is maximal");
}

template <typename C>
void contract_identifier(std::string_view s, Size n, C ck)
{
    ck(n <= s.size(), "the match lies within the string");
    if (s.empty() || rng(s[0], '0', '9') || !ident(s[0])) {
        ck(n == 0, "an identifier starts with a letter or underscore");
        vf_cover("no identifier");
        return;
    }
    ck(n != 0, "an identifier is matched");
    ck(vf_rec_all_ident(s.data(), n), "everything matched is an identifier character");
    ck(n == s.size() || !ident(s[n]), "the match is maximal");
    vf_cover("identifier");
}

template <typename C>
void contract_line_comment(std::string_view s, const std::optional<Text_Match>& m, C ck)
{
    const bool starts = s.size() >= 2 && s[0] == '/' && s[1] == '/';
    ck(m.has_value() == starts, "line comments start with //");
    if (m) {
        ck(m->length >= 2 && m->length <= s.size(), "the match lies within the string");
        ck(vf_rec_all_not_nl(s.data(), m->length), "a line comment contains no newline");
        ck(m->is_terminated == (m->length != s.size()), "terminated unless the input ends");
        ck(m->length == s.size() || s[m->length] == '\n', "a line comment extends to the end of the line");
        if (m->is_terminated) {
            vf_cover("terminated");
        }
        else {
            vf_cover("unterminated");
        }
    }
}

template <typename C>
void contract_block_comment(std::string_view s, const std::optional<Text_Match>& m, C ck)
{
    const bool starts = s.size() >= 2 && s[0] == '/' && s[1] == '*';
    ck(m.has_value() == starts, "block comments start with /*");
    if (m) {
        const Size n = m->length;
        ck(n <= s.size(), "the match lies within the string");
        if (m->is_terminated) {
            ck(n >= 4 && s[n - 2] == '*' && s[n - 1] == '/', "a block comment ends with */");
            ck(vf_rec_all_block(s.data(), n - 1), "a block comment ends at the first */");
            vf_cover("terminated");
        }
        else {
            ck(n == s.size(), "an unterminated comment extends to the end of the input");
            ck(vf_rec_all_block(s.data(), n), "an unterminated comment contains no */");
            vf_cover("unterminated");
        }
    }
}

template <typename C>
void contract_string_literal(std::string_view s, const std::optional<Text_Match>& m, C ck)
{
    ck(m.has_value() == (!s.empty() && s[0] == '"'), "string literals start with a quote");
    if (m) {
        const Size n = m->length;
        ck(n <= s.size(), "the match lies within the string");
        if (m->is_terminated) {
            ck(n >= 2 && s[n - 1] == '"', "a string literal ends with a quote");
            ck(vf_rec_all_open(s.data(), n - 1) && vf_rec_escaped(s.data(), n - 1) == 0,
               "a string literal ends at the first unescaped quote");
            vf_cover("terminated");
        }
        else {
            ck(n == s.size(), "an unterminated literal extends to the end of the input");
            ck(vf_rec_all_open(s.data(), n), "an unterminated literal contains no closing quote");
            vf_cover("unterminated");
        }
    }
}

inline bool all_digits(int base, const char* d, Size n)
{
    return base == 2 ? vf_rec_all_d2(d, n) : base == 8 ? vf_rec_all_d8(d, n) : base == 10 ? vf_rec_all_d10(d, n) : vf_rec_all_d16(d, n);
}

template <typename C>
void contract_integer_literal(std::string_view s, const Literal_Match_Result& m, C ck)
{
    const Lit p = literal_prefix(s);
    if (s.empty() || !rng(s[0], '0', '9')) {
        ck(m.status == Literal_Match_Status::no_digits && m.length == 0 && !m, "a literal starts with a digit");
        vf_cover("no digits");
        return;
    }
    const char* const d = s.data() + p.prefix;
    const Size max = s.size() - p.prefix;
    if (max == 0 || !digit(d[0], p.base)) {
        ck(m.status == Literal_Match_Status::no_digits_following_prefix && m.length == 2 && !m,
           "a prefix without digits is reported, with the length of the prefix");
        ck(m.type == p.type, "the type follows from the prefix");
        vf_cover("prefix only");
        return;
    }
    ck(m.status == Literal_Match_Status::ok && bool(m), "a literal is matched");
    ck(m.length <= s.size() && m.length > p.prefix, "the match lies within the string");
    const Size n = m.length - p.prefix;
    ck(all_digits(p.base, d, n), "everything after the prefix is a digit of the base");
    ck(n == max || !digit(d[n], p.base), "the match is maximal");
    ck(m.type == (p.type == Literal_Type::octal && n == 1 ? Literal_Type::decimal : p.type), "the type follows from the prefix");
    vf_cover("literal");
}
