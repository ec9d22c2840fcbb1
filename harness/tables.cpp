// Contracts of the vocabularies: tokens, operators, annotations, directives, code languages
#include "vf.hpp"

#include <compare>
#include <optional>

#include "bms/fwd.hpp"
#include "bmd/codegen/code_language.hpp"
#include "bmd/directive_type.hpp"
#include "bmd/html/html_writer.hpp"
#include "bms/annotation.hpp"
#include "bms/expression_type.hpp"
#include "bms/tokenization/token_type.hpp"

using namespace bit_manipulation;
using bms::Expression_Type;
using bms::Token_Type;

namespace {

constexpr unsigned token_types = unsigned(Token_Type::keyword_static_assert) + 1;
constexpr unsigned expression_types = unsigned(Expression_Type::id) + 1;

// a string of one of the given lengths, or longer than all of them
template <unsigned max>
std::string_view any_name(const char* name)
{
    const unsigned n = vf_choose("length", max + 2);
    const std::string_view s = vf_any_string(name);
    if (n <= max) {
        vf_assume(s.size() == n);
        return { s.data(), n };
    }
    vf_assume(s.size() > max);
    return s;
}

// equality without a case distinction
bool same(std::string_view a, const char* b, unsigned long n)
{
    if (a.size() != n) {
        return false;
    }
    int r = 1;
    for (unsigned long i = 0; i < n; ++i) {
        r &= int(a[i] == b[i]);
    }
    return bool(r);
}

} // namespace

VF_HARNESS(token_names)
{
    const auto a = Token_Type(vf_choose("a", token_types));
    const std::string_view code = bms::token_type_code_name(a);
    switch (a) {
    case Token_Type::identifier:
    case Token_Type::decimal_literal:
    case Token_Type::octal_literal:
    case Token_Type::hexadecimal_literal:
    case Token_Type::binary_literal:
    case Token_Type::string_literal: vf_check(code.empty(), "tokens with varying text have no code name"); break;
    default: vf_check(!code.empty(), "tokens with a fixed text have a code name");
    }
    vf_check(!bms::token_type_name(a).empty() && !bms::token_type_readable_name(a).empty(), "tokens have a name");
    for (unsigned i = 0; i < token_types; ++i) {
        const auto b = Token_Type(i);
        if (a != b) {
            vf_check(code.empty() || bms::token_type_code_name(b) != code, "code names are unique");
            vf_check(bms::token_type_name(a) != bms::token_type_name(b), "names are unique");
        }
    }
    vf_cover("names");
}

VF_HARNESS(token_classes)
{
    const auto a = Token_Type(vf_choose("a", token_types));
    using namespace bms;
    const std::string_view c = token_type_code_name(a);
    const auto among = [c](std::initializer_list<std::string_view> l) {
        for (const std::string_view s : l) {
            if (s == c) {
                return true;
            }
        }
        return false;
    };
    vf_check(is_unary_operator(a) == among({ "+", "-", "!", "~" }), "prefix operators are + - ! ~");
    vf_check(is_arithmetic_operator(a) == among({ "+", "-", "*", "/", "%" }), "arithmetic operators are + - * / %");
    vf_check(is_bitwise_operator(a) == among({ "&", "|", "~", "^", "<<", ">>" }), "bitwise operators are & | ~ ^ << >>");
    vf_check(is_comparison_operator(a) == among({ "==", "!=", "<", ">", "<=", ">=" }), "comparison operators are == != < > <= >=");
    vf_check(is_relational_comparison_operator(a) == among({ "<", ">", "<=", ">=" }), "relational operators are < > <= >=");
    vf_check(is_logical_operator(a) == among({ "!", "&&", "||" }), "logical operators are ! && ||");
    vf_check(is_binary_operator(a)
                 == ((is_arithmetic_operator(a) || is_bitwise_operator(a) || is_comparison_operator(a) || is_logical_operator(a))
                     && !among({ "!", "~" })),
             "binary operators are all operators but ! and ~");
    vf_check(is_comment(a) == among({ "//", "/*" }), "comments are // and /*");
    vf_check(is_boolean_literal(a) == among({ "true", "false" }), "boolean literals are true and false");
    const bool integer = a == Token_Type::decimal_literal || a == Token_Type::octal_literal || a == Token_Type::hexadecimal_literal
        || a == Token_Type::binary_literal;
    vf_check(is_integer_literal(a) == integer, "integer literals are binary, octal, decimal or hexadecimal");
    vf_check(is_literal(a) == (integer || is_boolean_literal(a) || a == Token_Type::string_literal), "literals are integers, booleans and strings");
    vf_cover("classes");
}

VF_HARNESS(operators)
{
    const auto a = Expression_Type(vf_choose("a", expression_types));
    using namespace bms;
    using enum Expression_Type;
    if (a != function_call && a != literal && a != id) {
        const Token_Type t = expression_type_token(a);
        vf_check(expression_type_code_name(a) == token_type_code_name(t), "operators are written as their token");
        const std::string_view expected = [a]() -> std::string_view {
            switch (a) {
            case conversion: return "as";
            case if_expression: return "if";
            case logical_and: return "&&";
            case logical_or: return "||";
            case equals: return "==";
            case not_equals: return "!=";
            case less_than: return "<";
            case greater_than: return ">";
            case less_or_equal: return "<=";
            case greater_or_equal: return ">=";
            case binary_plus:
            case unary_plus: return "+";
            case binary_minus:
            case unary_minus: return "-";
            case multiplication: return "*";
            case division: return "/";
            case remainder: return "%";
            case shift_left: return "<<";
            case shift_right: return ">>";
            case bitwise_and: return "&";
            case bitwise_or: return "|";
            case bitwise_xor: return "^";
            case logical_not: return "!";
            default: return "~";
            }
        }();
        vf_check(token_type_code_name(t) == expected, "the token of an operator is the one that denotes it");
        vf_check(is_binary(a) == (is_binary_operator(t) && !is_prefix_unary(a)), "binary expressions have binary operators");
        vf_check(!is_prefix_unary(a) || is_unary_operator(t), "prefix expressions have prefix operators");
        vf_check(is_binary_comparison(a) == is_comparison_operator(t), "comparisons have comparison operators");
        vf_check(is_relational_comparison(a) == is_relational_comparison_operator(t), "relational comparisons have relational operators");
        vf_check(is_equality_comparison(a) == (is_comparison_operator(t) && !is_relational_comparison_operator(t)),
                 "equality comparisons are comparisons that are not relational");
        vf_check(is_arithmetic(a) == is_arithmetic_operator(t), "arithmetic expressions have arithmetic operators");
        vf_check(is_binary_arithmetic(a) == (is_arithmetic(a) && is_binary(a)), "binary arithmetic is arithmetic and binary");
        vf_check(is_unary_arithmetic(a) == (is_arithmetic(a) && is_prefix_unary(a)), "unary arithmetic is arithmetic and unary");
        vf_check(is_bitwise(a) == is_bitwise_operator(t), "bitwise expressions have bitwise operators");
        vf_check(is_binary_bitwise(a) == (is_bitwise(a) && is_binary(a)), "binary bitwise is bitwise and binary");
        vf_check(is_binary_logical(a) == (is_logical_operator(t) && is_binary(a)), "logical expressions have logical operators");
    }
    const int classes = is_binary(a) + is_prefix_unary(a) + is_postfix_unary(a) + is_primary(a) + (a == conversion || a == if_expression);
    vf_check(classes == 1, "an expression is binary, prefix, postfix, primary, a conversion or an if-expression");
    vf_cover("operators");
}

VF_HARNESS(precedence)
{
    const auto a = Expression_Type(vf_choose("a", expression_types));
    const auto b = Expression_Type(vf_choose("b", expression_types));
    using namespace bms;
    const auto p = compare_precedence(a, b), q = compare_precedence(b, a);
    vf_check((p < 0) == (q > 0) && (p > 0) == (q < 0) && (p == 0) == (q == 0), "precedence is antisymmetric");
    vf_check(a != b || (!(p < 0) && !(p > 0)), "precedence is irreflexive");
    for (unsigned i = 0; i < expression_types; ++i) {
        const auto c = Expression_Type(i);
        vf_check(!(p < 0 && compare_precedence(b, c) < 0) || compare_precedence(a, c) < 0, "precedence is transitive");
    }
    const auto level = [](Expression_Type e) {
        return e == Expression_Type::conversion || e == Expression_Type::if_expression ? 0
            : is_binary(e)                                                           ? 1
            : is_prefix_unary(e)                                                     ? 2
            : is_postfix_unary(e)                                                    ? 3
                                                                                     : 4;
    };
    if (level(a) != level(b)) {
        vf_check((p < 0) == (level(a) < level(b)) && (p > 0) == (level(a) > level(b)),
                 "conversions and if-expressions bind loosest, then binary, prefix, postfix and primary expressions");
    }
    else if (is_binary_comparison(a) && is_binary_arithmetic(b)) {
        vf_check(p < 0, "comparisons bind looser than arithmetic");
    }
    else if (!(is_binary_arithmetic(a) && is_binary_comparison(b))) {
        vf_check(!(p < 0) && !(p > 0), "other operators of one kind require parentheses");
    }
    vf_cover("precedence");
}

VF_HARNESS(annotations)
{
    using enum bms::Annotation_Type;
    static constexpr struct {
        const char* name;
        unsigned length;
        bms::Annotation_Type type;
    } table[] { { "immutable", 9, immutable },
                { "inline", 6, inline_ },
                { "loop_variable", 13, loop_variable },
                { "loop_step", 9, loop_step },
                { "unroll", 6, unroll },
                { "c_equivalent", 12, c_equivalent },
                { "java_equivalent", 15, java_equivalent },
                { "instantiate", 11, instantiate },
                { "false_if_unknown", 16, false_if_unknown },
                { "remove_if_unused", 16, remove_if_unused } };
    const std::string_view s = any_name<16>("name");
    const auto r = bms::annotation_type_by_name(s);
    bool known = false;
    for (const auto& e : table) {
        if (same(s, e.name, e.length)) {
            known = true;
            vf_check(r == e.type, "an annotation is found by its name");
            vf_cover("annotation");
        }
    }
    vf_check(known || !r, "other names are no annotations");
    vf_cover("unknown annotation");
}

VF_HARNESS(directives_by_id)
{
    using namespace bmd;
    using enum Directive_Type;
    static constexpr struct {
        const char* id;
        unsigned length;
        Directive_Type type;
    } table[] {
        { "b", 1, bold },           { "bmsfun", 6, bms_function },    { "br", 2, line_break },     { "c", 1, code },
        { "cequiv", 6, c_equivalent }, { "codeblock", 9, code_block }, { "del", 3, deleted },      { "h1", 2, heading1 },
        { "h2", 2, heading2 },      { "h3", 2, heading3 },            { "h4", 2, heading4 },       { "h5", 2, heading5 },
        { "h6", 2, heading6 },      { "hr", 2, horizontal_rule },     { "i", 1, italic },          { "instruction", 11, instruction },
        { "item", 4, item },        { "kbd", 3, keyboard },           { "meta", 4, meta },         { "note", 4, note },
        { "ol", 2, ordered_list },  { "q", 1, quoted },               { "s", 1, strikethrough },   { "sub", 3, subscript },
        { "sup", 3, superscript },  { "title", 5, title },            { "tt", 2, teletype },       { "u", 1, underlined },
        { "ul", 2, unordered_list },
    };
    const std::string_view s = any_name<11>("id");
    const auto r = directive_type_by_id(s);
    bool known = false;
    for (const auto& e : table) {
        if (same(s, e.id, e.length)) {
            known = true;
            vf_check(r == e.type, "a directive is found by its identifier");
            vf_cover("directive");
        }
    }
    vf_check(known || !r, "other identifiers are no directives");
    vf_cover("unknown directive");
}

VF_HARNESS(directives)
{
    using namespace bmd;
    using enum Directive_Type;
    const auto t = Directive_Type(vf_choose("t", unsigned(c_equivalent) + 1));
    const std::string_view tag = directive_type_tag(t);
    vf_check(directive_type_must_be_empty(t) == (directive_type_content_type(t) == Directive_Content_Type::nothing),
             "exactly directives without content must be empty");
    if (directive_type_is_html_passthrough(t)) {
        const auto by_tag = directive_type_by_id(tag);
        vf_check(by_tag == t, "HTML passthrough directives have the tag they are named after");
    }
    const auto content = directive_type_content_type(t);
    for (unsigned i = 0; i <= unsigned(c_equivalent); ++i) {
        const auto u = Directive_Type(i);
        const bool allowed = directive_type_allowed_in(u, content);
        vf_check(!allowed || directive_content_allows_directives(content), "nothing may contain directives that disallows them");
        if (content == Directive_Content_Type::span) {
            vf_check(!allowed || directive_type_environment(u) == Directive_Environment::paragraph, "paragraphs contain no blocks");
        }
        vf_check(directive_type_environment(u) != Directive_Environment::meta || !allowed || t == meta || content == Directive_Content_Type::raw,
                 "metadata is only allowed within meta");
        vf_check(directive_type_environment(u) != Directive_Environment::list || !allowed || t == ordered_list || t == unordered_list
                     || content == Directive_Content_Type::raw,
                 "items are only allowed within lists");
        if (t != u && directive_type_is_html_passthrough(t) && directive_type_is_html_passthrough(u)) {
            vf_check(tag != directive_type_tag(u), "different passthrough directives have different tags");
        }
    }
    const auto style = directive_type_formatting_style(t);
    if (directive_type_environment(t) == Directive_Environment::paragraph) {
        vf_check(style == Formatting_Style::in_line, "directives within a paragraph do not break the line");
    }
    vf_cover("directives");
}

VF_HARNESS(languages)
{
    using namespace bmd;
    const auto a = Code_Language(vf_choose("a", unsigned(Code_Language::typescript) + 1));
    for (unsigned i = 0; i <= unsigned(Code_Language::typescript); ++i) {
        const auto b = Code_Language(i);
        if (a != b) {
            vf_check(code_language_name(a) != code_language_name(b), "languages have different names");
            vf_check(code_language_readable_name(a) != code_language_readable_name(b), "languages have different readable names");
        }
    }
    vf_cover("languages");
}
