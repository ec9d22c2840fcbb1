// Contract of the tokenizer: src/bms/tokenization/tokenize.cpp.
// Every token the tokenizer emits passes through `emitted`, which checks it against the specification below; the
// ghost state (source, end of the previous token) makes the sequence of tokens a partition of the source.
#include "lex.hpp"

#include <memory_resource>
#include <vector>

#include "bms/tokenization/token.hpp"
#include "bms/tokenization/token_type.hpp"
#include "bms/tokenization/tokenize.hpp"

using namespace bit_manipulation::bms;

// line and column (tabs count 4; carriage returns and newlines go back to column 0) after the first k characters
extern "C" unsigned long vf_rec_line(const char* s, unsigned long k) noexcept
{
    return k == 0 ? 0 : vf_rec_line(s, k - 1) + (unsigned long)(s[k - 1] == '\n');
}

extern "C" unsigned long vf_rec_column(const char* s, unsigned long k) noexcept
{
    if (k == 0) {
        return 0;
    }
    const unsigned long c = vf_rec_column(s, k - 1);
    const char x = s[k - 1];
    return bool(int(x == '\n') | int(x == '\r')) ? 0 : c + (x == '\t' ? 4 : 1);
}

// the tokenizer's column may lag behind at the end of a line comment, before the newline
extern "C" bool vf_rec_rel_column(const char* s, unsigned long n, unsigned long pos, unsigned long v) noexcept
{
    if (pos > n) {
        return false;
    }
    if (pos == n || s[pos] == '\n') {
        return true;
    }
    return v == vf_rec_column(s, pos);
}

namespace {

struct Spelling {
    std::string_view text;
    Token_Type type;
};

constexpr Spelling operators[] {
    // longer operators first
    { "==", Token_Type::equals },
    { "!=", Token_Type::not_equals },
    { "<=", Token_Type::less_or_equal },
    { ">=", Token_Type::greater_or_equal },
    { "<<", Token_Type::shift_left },
    { ">>", Token_Type::shift_right },
    { "&&", Token_Type::logical_and },
    { "||", Token_Type::logical_or },
    { "->", Token_Type::right_arrow },
    { "=>", Token_Type::double_right_arrow },
    { "(", Token_Type::left_parenthesis },
    { ")", Token_Type::right_parenthesis },
    { "{", Token_Type::left_brace },
    { "}", Token_Type::right_brace },
    { "=", Token_Type::assign },
    { "+", Token_Type::plus },
    { "-", Token_Type::minus },
    { "*", Token_Type::multiplication },
    { "/", Token_Type::division },
    { "%", Token_Type::remainder },
    { "<", Token_Type::less_than },
    { ">", Token_Type::greater_than },
    { "&", Token_Type::bitwise_and },
    { "|", Token_Type::bitwise_or },
    { "^", Token_Type::bitwise_xor },
    { "~", Token_Type::bitwise_not },
    { "!", Token_Type::logical_not },
    { ":", Token_Type::colon },
    { ";", Token_Type::semicolon },
    { ".", Token_Type::dot },
    { ",", Token_Type::comma },
    { "@", Token_Type::at },
};

constexpr Spelling keywords[] {
    { "as", Token_Type::keyword_as },
    { "let", Token_Type::keyword_let },
    { "const", Token_Type::keyword_const },
    { "function", Token_Type::keyword_function },
    { "while", Token_Type::keyword_while },
    { "if", Token_Type::keyword_if },
    { "else", Token_Type::keyword_else },
    { "Uint", Token_Type::keyword_uint },
    { "Int", Token_Type::keyword_int },
    { "Bool", Token_Type::keyword_bool },
    { "Void", Token_Type::keyword_void },
    { "requires", Token_Type::keyword_requires },
    { "return", Token_Type::keyword_return },
    { "break", Token_Type::keyword_break },
    { "continue", Token_Type::keyword_continue },
    { "true", Token_Type::keyword_true },
    { "false", Token_Type::keyword_false },
    { "static_assert", Token_Type::keyword_static_assert },
};

bool spelled(const char* s, Size length, std::string_view text)
{
    if (length != text.size()) {
        return false;
    }
    int r = 1;
    for (Size i = 0; i < text.size(); ++i) {
        r &= int(s[i] == text[i]);
    }
    return r != 0;
}

Token_Type literal_token(Literal_Type t)
{
    return t == Literal_Type::binary ? Token_Type::binary_literal
        : t == Literal_Type::octal   ? Token_Type::octal_literal
        : t == Literal_Type::decimal ? Token_Type::decimal_literal
                                     : Token_Type::hexadecimal_literal;
}

void assume_that(bool c, const char*)
{
    vf_assume(c);
}

// ghost state: the source, and the end of the previous token
const char* g_src;
Size g_n;
Size g_end;
// the last result of try_match
bool g_matched, g_failed;
Size g_at, g_length;
Token_Type g_type;
Tokenize_Error g_error;

bool plain(char c)
{
    return bool(int(c != '\t') & int(c != '\r') & int(c != '\n'));
}

// consequence of lemma_columns_* below
void same_line(Size b, Size length)
{
    vf_assume(vf_rec_line(g_src, b + length) == vf_rec_line(g_src, b));
}

void straight(Size b, Size length)
{
    same_line(b, length);
    vf_assume(vf_rec_column(g_src, b + length) == vf_rec_column(g_src, b) + length);
}

const char* const bad_type = "the token has the type of the longest token at its position";
const char* const bad_length = "the token is as long as the longest token at its position";

// one token at b: the specification
void token_spec(Size b, Size length, Token_Type type)
{
    const std::string_view s { g_src + b, g_n - b };
    const char c = s[0];
    if (c == '/' && s.size() > 1 && s[1] == '/') {
        vf_check(type == Token_Type::line_comment, bad_type);
        contract_line_comment(s, Text_Match { length, length != s.size() }, vf_check);
        same_line(b, length); // lemma_columns_not_nl
        vf_cover("line comment");
    }
    else if (c == '/' && s.size() > 1 && s[1] == '*') {
        vf_check(type == Token_Type::block_comment, bad_type);
        contract_block_comment(s, Text_Match { length, true }, vf_check);
        vf_cover("block comment");
    }
    else if (c == '"') {
        vf_check(type == Token_Type::string_literal, bad_type);
        contract_string_literal(s, Text_Match { length, true }, vf_check);
        vf_cover("string literal");
    }
    else if (rng(c, '0', '9')) {
        const Lit p = literal_prefix(s);
        const Literal_Type t = p.type == Literal_Type::octal && length == 1 ? Literal_Type::decimal : p.type;
        vf_check(type == literal_token(t), bad_type);
        contract_integer_literal(s, Literal_Match_Result { Literal_Match_Status::ok, length, t }, vf_check);
        vf_check(length == s.size() || !ident(s[length]), "an integer literal has no suffix");
        straight(b, length); // lemma_columns_d*
        vf_cover("integer literal");
    }
    else if (ident(c)) {
        contract_identifier(s, length, vf_check);
        Token_Type expected = Token_Type::identifier;
        for (const Spelling& k : keywords) {
            if (spelled(s.data(), length, k.text)) {
                expected = k.type;
            }
        }
        vf_check(type == expected, bad_type);
        straight(b, length); // lemma_columns_ident
        if (expected == Token_Type::identifier) {
            vf_cover("identifier");
        }
        else {
            vf_cover("keyword");
        }
    }
    else {
        for (const Spelling& k : operators) {
            if (s.size() >= k.text.size() && spelled(s.data(), k.text.size(), k.text)) {
                vf_check(length == k.text.size(), bad_length);
                vf_check(type == k.type, bad_type);
                // the definitions
                (void)vf_rec_column(g_src, b + 1);
                (void)vf_rec_line(g_src, b + 1);
                (void)vf_rec_column(g_src, b + length);
                (void)vf_rec_line(g_src, b + length);
                vf_cover("operator");
                return;
            }
        }
        vf_check(false, "no token starts with this character");
    }
}

void emitted(const Token& t)
{
    const Size b = t.pos.begin;
    const Size length = t.pos.length;
    vf_check(b >= g_end && b < g_n && length != 0 && length <= g_n - b, "tokens are in order, nonempty, and within the source");
    vf_check(vf_rec_all_space(g_src + g_end, b - g_end), "only whitespace lies between tokens");
    vf_check(!sp(g_src[b]), "tokens do not start with whitespace");
    vf_check(t.pos.line == vf_rec_line(g_src, b), "the line of a token is the number of newlines before it");
    vf_check(t.pos.column == vf_rec_column(g_src, b), "the column of a token is exact");
    if (vf_is_symbolic()) {
        // tokens are matched as specified (tokenize_match)
        vf_check(g_matched && g_at == b && g_length == length && g_type == t.type, "the token is the one found at its position");
        g_matched = false;
    }
    else {
        token_spec(b, length, t.type);
    }
    g_end = b + length;
}

// what must be wrong if no token is found at b
void error_spec(Size b, const Tokenize_Error& e, Size line, Size column)
{
    const std::string_view s { g_src + b, g_n - b };
    const char c = s[0];
    Size offset = 0;
    Tokenize_Error_Code code = Tokenize_Error_Code::illegal_character;
    const char* const bad = "there is a token where an error is reported";
    if (c == '/' && s.size() > 1 && (s[1] == '/' || s[1] == '*')) {
        vf_check(s[1] == '*' && vf_rec_all_block(s.data(), s.size()), bad);
        code = Tokenize_Error_Code::unterminated_comment;
        vf_cover("unterminated comment");
    }
    else if (c == '"') {
        vf_check(vf_rec_all_open(s.data(), s.size()), bad);
        code = Tokenize_Error_Code::unterminated_string;
        vf_cover("unterminated string");
    }
    else if (rng(c, '0', '9')) {
        const Lit p = literal_prefix(s);
        if (p.prefix == s.size() || !digit(s[p.prefix], p.base)) {
            offset = 2;
            code = Tokenize_Error_Code::no_digits_following_integer_prefix;
            vf_cover("no digits");
        }
        else {
            offset = e.pos.begin - b;
            vf_check(offset > p.prefix && offset < s.size() && all_digits(p.base, s.data() + p.prefix, offset - p.prefix)
                         && !digit(s[offset], p.base) && ident(s[offset]),
                     bad);
            code = Tokenize_Error_Code::integer_suffix;
            vf_cover("suffix");
        }
    }
    else {
        vf_check(!ident(c), bad);
        for (const Spelling& k : operators) {
            vf_check(k.text.size() != 1 || c != k.text[0], bad);
        }
        vf_cover("illegal character");
    }
    vf_check(e.code == code, "the error names the problem");
    vf_check(e.pos.begin == b + offset, "the error is located at the problem");
    vf_check(e.pos.line == line, "the line of the error is exact");
    vf_check(e.pos.column == column + offset, "the column of the error is exact");
}

// the same, for the source after g_end
void error_spec(const Tokenize_Error& e)
{
    const std::string_view rest { g_src + g_end, g_n - g_end };
    const Size b = g_end + match_whitespace(rest);
    vf_check(b < g_n, "an error refers to text");
    error_spec(b, e, vf_rec_line(g_src, b), vf_rec_column(g_src, b));
}

std::string_view hinted_source()
{
    const std::string_view s = vf_any_string("source");
    g_src = s.data();
    g_n = s.size();
    g_end = 0;
    g_matched = g_failed = false;
    vf_hint_value(vf_rec_line, s.data());
    vf_hint_value(vf_rec_column, s.data());
    vf_hint_rel(vf_rec_rel_column, s.data(), s.size());
    return s;
}

} // namespace

// ---- stubs: contracts in the place of the callees -----------------------------------------------------------

extern "C" {

void vf_tok_push(std::pmr::vector<Token>*, const Token* t)
{
    emitted(*t);
}

void vf_tok_emplace(std::pmr::vector<Token>*, const Local_Source_Span* p, const Token_Type* type)
{
    emitted(Token { *p, *type });
}

Size vf_tok_whitespace(std::string_view s)
{
    const auto n = vf_any<Size>("whitespace");
    contract_whitespace(s, n, assume_that);
    (void)vf_rec_all_space(s.data(), n + 1);
    return n;
}

Size vf_tok_find_first_not_of(const std::string_view* s, const char* set, Size from)
{
    vf_check(from == 0 && (std::string_view(set) == " \r\t\n" || std::string_view(set) == " \t\r\n"), "the whitespace characters");
    const Size n = vf_tok_whitespace(*s);
    return n == s->size() ? std::string_view::npos : n;
}

Size vf_tok_identifier(std::string_view s)
{
    const auto n = vf_any<Size>("identifier");
    contract_identifier(s, n, assume_that);
    return n;
}

std::optional<Text_Match> vf_tok_any_match()
{
    if (!vf_any<bool>("matches")) {
        return std::nullopt;
    }
    const auto n = vf_any<Size>("length");
    return Text_Match { n, vf_any<bool>("terminated") };
}

std::optional<Text_Match> vf_tok_line_comment(std::string_view s)
{
    const auto m = vf_tok_any_match();
    contract_line_comment(s, m, assume_that);
    return m;
}

std::optional<Text_Match> vf_tok_block_comment(std::string_view s)
{
    const auto m = vf_tok_any_match();
    contract_block_comment(s, m, assume_that);
    return m;
}

std::optional<Text_Match> vf_tok_string_literal(std::string_view s)
{
    const auto m = vf_tok_any_match();
    contract_string_literal(s, m, assume_that);
    return m;
}

Literal_Match_Result vf_tok_integer_literal(std::string_view s)
{
    const unsigned st = vf_choose("status", 3);
    const auto n = vf_any<Size>("length");
    const unsigned t = vf_choose("type", 4);
    const Literal_Match_Result r { static_cast<Literal_Match_Status>(st), n, static_cast<Literal_Type>(t) };
    contract_integer_literal(s, r, assume_that);
    return r;
}
}

// ---- the parts of the tokenizer, and their contracts ---------------------------------------------------------

namespace {

// the layouts of Tokenizer and Tokenize_Result, which are local to tokenize.cpp
struct Tok {
    std::string_view source;
    Local_Source_Span pos;
    unsigned char reserve[192];
};

struct Match {
    Size length;
    Token_Type type;
};

bool same(const Tokenize_Error& a, const Tokenize_Error& b)
{
    return bool(int(a.code == b.code) & int(a.pos.line == b.pos.line) & int(a.pos.column == b.pos.column)
                & int(a.pos.begin == b.pos.begin));
}

// through the public interface
void whole()
{
    const std::string_view s = hinted_source();
    // symbolically nothing is ever allocated: push_back is the sink
    alignas(std::pmr::memory_resource) unsigned char none[sizeof(std::pmr::memory_resource)];
    std::pmr::vector<Token> out { std::pmr::polymorphic_allocator<Token>(
        vf_is_symbolic() ? reinterpret_cast<std::pmr::memory_resource*>(none) : std::pmr::new_delete_resource()) };
    const Result<void, Tokenize_Error> r = tokenize(out, s);
    for (const Token& t : out) {
        emitted(t);
    }
    if (r) {
        vf_check(!g_failed, "errors are reported");
        vf_check(vf_rec_all_space(s.data() + g_end, s.size() - g_end), "on success nothing but whitespace is left");
        vf_cover("accepted");
    }
    else if (vf_is_symbolic()) {
        vf_check(g_failed && same(r.error(), g_error), "the error found where a token is expected is reported");
        vf_cover("rejected");
    }
    else {
        error_spec(r.error());
    }
}

} // namespace

extern "C" {

#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
// the real functions (bound by name, see checks.py)
__attribute__((weak)) Result<Match, Tokenize_Error> vf_real_try_match(const Tok*, std::string_view)
{
    return Match { 1, Token_Type::identifier };
}
__attribute__((weak)) void vf_real_advance(Tok*, Size) { }

// try_match by its contract (tokenize_match)
Result<Match, Tokenize_Error> vf_tok_match(const Tok* self, std::string_view s)
{
    const Size b = self->pos.begin;
    vf_check(s.data() == g_src + b && s.size() == g_n - b, "a token is expected in the rest of the source");
    vf_check(b >= g_end && b < g_n && !sp(g_src[b]), "tokens do not start with whitespace");
    vf_check(vf_rec_all_space(g_src + g_end, b - g_end), "only whitespace is skipped");
    vf_check(self->pos.line == vf_rec_line(g_src, b), "the line is the number of newlines before");
    vf_check(self->pos.column == vf_rec_column(g_src, b), "the column is exact");
    if (vf_choose("matches", 2)) {
        const auto n = vf_any<Size>("length");
        const auto t = static_cast<Token_Type>(vf_any<std::underlying_type_t<Token_Type>>("type"));
        vf_assume(n != 0 && n <= s.size());
        if (t != Token_Type::block_comment && t != Token_Type::string_literal) {
            same_line(b, n);
            if (t == Token_Type::line_comment) {
                vf_assume(n == s.size() || s[n] == '\n');
            }
            else {
                straight(b, n);
            }
        }
        g_matched = true;
        g_at = b;
        g_length = n;
        g_type = t;
        return Match { n, t };
    }
    g_failed = true;
    g_error.code = static_cast<Tokenize_Error_Code>(vf_choose("code", 5));
    g_error.pos.line = vf_any<Size>("line");
    g_error.pos.column = vf_any<Size>("column");
    g_error.pos.begin = vf_any<Size>("begin");
    return g_error;
}
#pragma clang diagnostic pop

// advance_position_by by its contract (tokenize_advance)
void vf_tok_advance(Tok* self, Size n)
{
    const Size b = self->pos.begin;
    vf_check(b <= g_n && n <= g_n - b, "advances within the source");
    vf_check(self->pos.line == vf_rec_line(g_src, b) && vf_rec_rel_column(g_src, g_n, b, self->pos.column), "the position is exact");
    self->pos.begin = b + n;
    self->pos.line = vf_rec_line(g_src, b + n);
    // (it does not matter in front of a newline)
    const auto column = vf_any<Size>("column");
    vf_assume(vf_rec_rel_column(g_src, g_n, b + n, column));
    self->pos.column = column;
}
}

VF_HARNESS(tokenize)
{
    whole();
}

VF_HARNESS(tokenize_match)
{
    if (!vf_is_symbolic()) {
        whole();
        return;
    }
    const std::string_view source = hinted_source();
    Tok tok;
    tok.source = source;
    tok.pos.begin = vf_any<Size>("begin");
    tok.pos.line = vf_any<Size>("line");
    tok.pos.column = vf_any<Size>("column");
    tok.pos.length = vf_any<Size>("token length");
    const Size b = tok.pos.begin;
    vf_assume(b < source.size());
    vf_assume(!sp(source[b]));
    const std::string_view s { source.data() + b, source.size() - b };
    const Result<Match, Tokenize_Error> r = vf_real_try_match(&tok, s);
    if (r) {
        const Size n = r->length;
        vf_check(n != 0 && n <= s.size(), "tokens are nonempty and within the source");
        token_spec(b, n, r->type);
        // what the rest of the tokenizer relies on
        if (r->type != Token_Type::block_comment && r->type != Token_Type::string_literal) {
            vf_check(vf_rec_line(g_src, b + n) == vf_rec_line(g_src, b), "other tokens lie on one line");
            if (r->type == Token_Type::line_comment) {
                vf_check(n == s.size() || s[n] == '\n', "line comments extend to the end of the line");
            }
            else {
                vf_check(vf_rec_column(g_src, b + n) == vf_rec_column(g_src, b) + n, "other tokens advance the column by their length");
            }
        }
    }
    else {
        error_spec(b, r.error(), tok.pos.line, tok.pos.column);
    }
}

VF_HARNESS(tokenize_advance)
{
    if (!vf_is_symbolic()) {
        whole();
        return;
    }
    const std::string_view source = hinted_source();
    Tok tok;
    tok.source = source;
    const auto b = vf_any<Size>("begin");
    const auto n = vf_any<Size>("length");
    vf_assume(b <= source.size() && n <= source.size() - b);
    tok.pos.begin = b;
    tok.pos.line = vf_rec_line(g_src, b);
    // (it does not matter in front of a newline)
    const auto column = vf_any<Size>("column");
    vf_assume(vf_rec_rel_column(g_src, g_n, b, column));
    tok.pos.column = column;
    tok.pos.length = vf_any<Size>("token length");
    vf_real_advance(&tok, n);
    vf_check(tok.pos.begin == b + n, "the position advances by the length");
    vf_check(tok.pos.line == vf_rec_line(g_src, b + n), "the line is exact");
    vf_check(vf_rec_rel_column(g_src, g_n, b + n, tok.pos.column), "the column is exact");
}

namespace {

template <typename F>
void lemma_columns(F all, bool columns)
{
    const std::string_view s = hinted_source();
    const auto b = vf_any<Size>("b");
    const auto k = vf_any<Size>("k");
    vf_assume(b <= s.size() && k <= s.size() - b);
    const char* const from = s.data() + b;
    vf_hint(all, from);
    vf_assume(all(from, k));
    const Size column = vf_rec_column(s.data(), b);
    const Size line = vf_rec_line(s.data(), b);
    const char* const to = from + k;
    for (const char* p = from; p != to; ++p) { }
    vf_check(vf_rec_line(s.data(), b + k) == line, "no newlines");
    if (columns) {
        vf_check(vf_rec_column(s.data(), b + k) == column + k, "columns advance by one");
    }
    vf_cover("done");
}

} // namespace

VF_HARNESS(lemma_columns)
{
    switch (vf_choose("class", 6)) {
    case 0: lemma_columns(vf_rec_all_not_nl, false); break;
    case 1: lemma_columns(vf_rec_all_ident, true); break;
    case 2: lemma_columns(vf_rec_all_d2, true); break;
    case 3: lemma_columns(vf_rec_all_d8, true); break;
    case 4: lemma_columns(vf_rec_all_d10, true); break;
    case 5: lemma_columns(vf_rec_all_d16, true); break;
    }
}
