// Contracts of the HTML writer: src/bmd/html/html_writer.{hpp,cpp}
#include "vf.hpp"

#include <compare>
#include <ostream>

#include "lex.hpp"

#include "common/source_position.hpp"
#include "bmd/html/token_consumer.hpp"

#define private public
#include "bmd/html/html_writer.hpp"
#undef private

using namespace bit_manipulation::bmd;
using State = HTML_Writer::State;
using Style = Formatting_Style;
using TT = HTML_Token_Type;

// no character with a meaning in HTML text
#define PLAIN(c) bool(int((c) != '<') & int((c) != '>') & int((c) != '&'))
// no character that ends an unquoted attribute value or must not occur in it
#define UNQUOTED(c)                                                                                                            \
    bool(int((c) != '"') & int((c) != '\'') & int((c) != '`') & int((c) != '=') & int((c) != '<') & int((c) != '>')            \
         & int((c) != ' ') & int((c) != '\t') & int((c) != '\n') & int((c) != '\r') & int((c) != '\f'))
inline bool is_unquoted(char c)
{
    return UNQUOTED(c);
}
GHOST_ALL(unquoted, is_unquoted)

extern "C" bool vf_html_identifier(std::string_view s) noexcept
{
    return !s.empty() && vf_rec_all_html(s.data(), s.size());
}

// the C++ library's character searches, by contract (ghosts: nothing of the set among the first k characters)
#define NO(name, chr)                                                                                                          \
    inline bool is_not_##name(char c)                                                                                          \
    {                                                                                                                          \
        return c != chr;                                                                                                       \
    }                                                                                                                          \
    GHOST_ALL(no_##name, is_not_##name)
NO(lt, '<')
NO(gt, '>')
NO(amp, '&')
NO(quot, '"')

extern "C" Size vf_lib_find_first_of(const std::string_view* s, const char* set, Size from, Size n) noexcept
{
    if (from >= s->size() || n == 0) {
        return std::string_view::npos;
    }
    const char* const p = s->data() + from;
    const auto r = vf_any<Size>("found at");
    vf_assume(r <= s->size() - from);
    for (Size i = 0; i < n; ++i) {
        switch (set[i]) {
        case '<': vf_assume(vf_rec_all_no_lt(p, r)); break;
        case '>': vf_assume(vf_rec_all_no_gt(p, r)); break;
        case '&': vf_assume(vf_rec_all_no_amp(p, r)); break;
        case '\n': vf_assume(vf_rec_all_not_nl(p, r)); break;
        case '"': vf_assume(vf_rec_all_no_quot(p, r)); break;
        default: break;
        }
    }
    const auto has = [set, n](char c) {
        for (Size i = 0; i < n; ++i) {
            if (set[i] == c) {
                return true;
            }
        }
        return false;
    };
    if (has('"') && has('\'') && has('`') && has('=') && has('<') && has('>') && has(' ') && has('\t') && has('\n') && has('\r')
        && has('\f')) {
        vf_assume(vf_rec_all_unquoted(p, r));
    }
    if (r == s->size() - from) {
        return std::string_view::npos;
    }
    int in_set = 0;
    for (Size i = 0; i < n; ++i) {
        in_set |= int(p[r] == set[i]);
    }
    vf_assume(in_set != 0);
    return from + r;
}

extern "C" Size vf_lib_find_char(const std::string_view* s, char c, Size from) noexcept
{
    return vf_lib_find_first_of(s, &c, from, 1);
}

namespace {

bool block_like(Style s)
{
    return s == Style::flat || s == Style::block;
}

Style any_style()
{
    return Style(vf_choose("style", 4));
}

// a tag or attribute name
std::string_view any_identifier(const char* name)
{
    const std::string_view s = vf_any_string(name);
    vf_assume(vf_html_identifier(s));
    return s;
}

// ---- streams compared at an arbitrary position ---------------------------------------------------
unsigned long probe;

struct Stream {
    unsigned long size = 0;
    char at_probe = 0;

    // (branch free: no case distinction on where the probe is)
    void put(char c, unsigned long n)
    {
        const unsigned long here = -(unsigned long)(int(probe >= size) & int(probe - size < n));
        at_probe = char((at_probe & ~here) | (c & here));
        size += n;
    }
    void put(std::string_view s)
    {
        if (!s.empty()) {
            const unsigned long here = -(unsigned long)(int(probe >= size) & int(probe - size < s.size()));
            at_probe = char((at_probe & ~here) | (s[(probe - size) & here] & here));
            size += s.size();
        }
    }
    void put(char c)
    {
        put(c, 1);
    }
};

struct Recorder : HTML_Token_Consumer {
    Stream s;
    bool write(char c, TT) override
    {
        s.put(c, 1);
        return true;
    }
    bool write(char c, Size n, TT) override
    {
        s.put(c, n);
        return true;
    }
    bool write(std::string_view v, TT) override
    {
        s.put(v);
        return true;
    }
};

// no output is longer than 2^40 characters
constexpr unsigned long limit = 1ul << 40;

struct Model {
    Stream out;
    bool new_line;
    unsigned long depth, indent_depth, width;

    void line_break()
    {
        out.put('\n');
        new_line = true;
    }
    void before(Style style)
    {
        if (!new_line && block_like(style)) {
            line_break();
        }
        if (new_line && style != Style::pre) {
            out.put(' ', indent_depth * width);
        }
        new_line = false;
    }
    void after(Style style)
    {
        if (block_like(style)) {
            line_break();
        }
    }
};

State abs_state(const Model& m)
{
    return m.new_line ? State::new_line : State::normal;
}

void any_state(HTML_Writer& w, Model& m)
{
    m.new_line = vf_choose("at the start of a line", 2);
    m.depth = vf_any<unsigned long>("depth");
    m.indent_depth = vf_any<unsigned short>("indentation depth");
    vf_assume(m.depth < (1ul << 20) && m.indent_depth <= m.depth);
    w.m_state = abs_state(m);
    w.m_depth = m.depth;
    w.m_indent_depth = m.indent_depth;
}

void agree(const HTML_Writer& w, const Recorder& r, const Model& m)
{
    vf_check(r.s.size == m.out.size, "the output has the expected length");
    vf_check(r.s.at_probe == m.out.at_probe, "the output has the expected characters");
    vf_check(w.m_depth == m.depth, "the number of open tags is tracked");
    vf_check(w.m_indent_depth == m.indent_depth, "the indentation is tracked");
    vf_check(w.m_state == abs_state(m), "the writer knows whether it is at the start of a line");
    vf_check(w.is_done() == (m.depth == 0 && m.indent_depth == 0), "the document is done if all tags are closed");
}

} // namespace

VF_HARNESS(writer_tags)
{
    probe = vf_any<unsigned long>("probe");
    Recorder r;
    const unsigned op = vf_choose("op", 7);
    Model m;
    m.width = vf_any<unsigned char>("indent width");
    HTML_Writer w { r, m.width };
    vf_check(!w.is_done(), "a document without preamble is not done");
    if (op == 0) {
        HTML_Writer& q = w.write_preamble();
        vf_check(&q == &w, "the writer is returned");
        m.new_line = false;
        m.depth = m.indent_depth = 0;
        m.out.put("<!DOCTYPE html>");
        m.line_break();
        agree(w, r, m);
        vf_cover("preamble");
        return;
    }
    any_state(w, m);
    const Style style = any_style();
    switch (op) {
    case 1: {
        const std::string_view id = any_identifier("id");
        w.write_empty_tag({ id, style });
        m.before(style);
        m.out.put('<');
        m.out.put(id);
        m.out.put("/>");
        m.after(style);
        vf_cover("empty tag");
        break;
    }
    case 2: {
        const std::string_view id = any_identifier("id");
        w.begin_tag({ id, style });
        m.before(style);
        m.out.put('<');
        m.out.put(id);
        m.out.put('>');
        m.after(style);
        ++m.depth;
        m.indent_depth += style == Style::block;
        vf_cover("begin tag");
        break;
    }
    case 3: {
        const std::string_view id = any_identifier("id");
        vf_assume(m.depth > 0);
        if (style == Style::block) {
            vf_assume(m.indent_depth > 0);
            --m.indent_depth;
        }
        w.end_tag({ id, style });
        m.before(style);
        m.out.put("</");
        m.out.put(id);
        m.out.put('>');
        m.after(style);
        --m.depth;
        vf_cover("end tag");
        break;
    }
    case 4: {
        const std::string_view id = any_identifier("id");
        const bool empty = vf_choose("empty", 2);
        {
            Attribute_Writer a = w.begin_tag_with_attributes({ id, style });
            vf_check(!w.is_done(), "a document with an open tag is not done");
            vf_check(w.m_state == State::attributes, "attributes may follow");
            if (empty) {
                a.end_empty();
            }
            else {
                a.end();
            }
        }
        m.before(style);
        m.out.put('<');
        m.out.put(id);
        m.out.put(empty ? "/>" : ">");
        m.after(style);
        if (!empty) {
            ++m.depth;
            m.indent_depth += style == Style::block;
        }
        vf_cover("begin tag with attributes");
        break;
    }
    case 5: {
        const char c = vf_any<char>("c");
        const auto n = vf_any<unsigned long>("n");
        vf_assume(sp(c) && n < limit);
        w.write_whitespace(c, n);
        m.out.put(c, n);
        m.new_line = false;
        vf_cover("whitespace");
        break;
    }
    default: {
        const std::string_view comment = vf_choose("comment", 2) ? "a -- > comment\n--" : "";
        w.write_comment_tag(comment, style);
        m.before(style);
        m.out.put("<!--");
        m.out.put(comment);
        m.out.put("-->");
        m.after(style);
        vf_cover("comment");
    }
    }
    agree(w, r, m);
}

// ---- text and attribute values: the output decodes to the input ----------------------------------
namespace {

std::string_view expected;    // the input
unsigned long consumed;       // how much of it has been written
unsigned long newlines;       // line breaks consumed
State expect_state;           // normal: a line break may precede the text
bool line_start;              // nothing consumed yet, or a line break just now

// one literal character of the output stands for a character of the input
void literal(char c)
{
    vf_check(consumed < expected.size() && expected[consumed] == c, "the output decodes to the input");
    ++consumed;
}

bool from_input(std::string_view s)
{
    return vf_within(s.data(), expected.data(), expected.size());
}

// text that is not a part of the input: entities and characters that stand for themselves
void decoded(std::string_view s)
{
    while (!s.empty()) {
        if (s[0] == '&') {
            const std::string_view e = s.starts_with("&lt;") ? "&lt;" : s.starts_with("&gt;") ? "&gt;" : s.starts_with("&amp;") ? "&amp;" : "&quot;";
            vf_check(s.starts_with(e), "characters with a meaning in HTML are escaped");
            literal(e[1] == 'l' ? '<' : e[1] == 'g' ? '>' : e[1] == 'a' ? '&' : '"');
            s.remove_prefix(e.size());
        }
        else {
            vf_check(PLAIN(s[0]), "characters with a meaning in HTML are escaped");
            literal(s[0]);
            s.remove_prefix(1);
        }
    }
}

// a run of output characters without special meaning
void run(std::string_view s)
{
    vf_check(bool(int(consumed <= expected.size()) & int(s.size() <= expected.size() - consumed)), "the output is no longer than the input");
    const auto j = vf_any<unsigned long>("j");
    vf_assume(j < s.size());
    vf_check(s[j] == expected[consumed + j], "the output decodes to the input");
}

struct Text_Sink : HTML_Token_Consumer {
    bool pre;
    bool write(char c, TT t) override
    {
        return write(c, 1, t);
    }
    bool write(char c, Size n, TT t) override
    {
        if (t != TT::inner_text) {
            vf_check(!pre, "nothing is added to preformatted text");
            if (c == '\n') {
                vf_check(n == 1, "line breaks are those of the input");
                if (expect_state != State::new_line) {
                    expect_state = State::new_line;
                }
                else {
                    literal('\n');
                    ++newlines;
                    line_start = true;
                }
            }
            else {
                vf_check(c == ' ', "lines are indented with spaces");
                vf_check(line_start, "only lines are indented");
                expect_state = State::new_line;
            }
            return true;
        }
        for (Size i = 0; i < n; ++i) {
            vf_check(PLAIN(c), "characters with a meaning in HTML are escaped");
            literal(c);
        }
        expect_state = State::new_line;
        return true;
    }
    bool write(std::string_view s, TT t) override
    {
        vf_check(t == TT::inner_text, "text is written as text");
        expect_state = State::new_line;
        if (!from_input(s)) {
            decoded(s);
            return true;
        }
        vf_check(vf_rec_all_no_lt(s.data(), s.size()) && vf_rec_all_no_gt(s.data(), s.size()) && vf_rec_all_no_amp(s.data(), s.size()),
                 "characters with a meaning in HTML are escaped");
        if (!s.empty()) {
            run(s);
        }
        consumed += s.size();
        return true;
    }
};

} // namespace

// write_escaped_text, by contract (proved by writer_escaped_text)
extern "C" void vf_html_escaped_text(HTML_Writer* w, std::string_view s) noexcept
{
    vf_check(w->m_state == State::normal || w->m_state == State::new_line, "text is not written within a tag");
    if (!s.empty()) {
        run(s);
        vf_check(vf_rec_all_not_nl(s.data(), s.size()), "line breaks are not written as text");
        expect_state = State::new_line;
        line_start = false;
        consumed += s.size();
    }
    w->m_state = State::normal;
}

VF_HARNESS(writer_escaped_text)
{
    const std::string_view text = vf_any_string("text");
    Text_Sink sink;
    Model m;
    m.width = vf_any<unsigned char>("indent width");
    HTML_Writer w { sink, m.width };
    any_state(w, m);
    sink.pre = true;
    expected = text;
    consumed = newlines = 0;
    line_start = true;
    expect_state = State::new_line;
    const Size lines = w.write_inner_text(text, Style::pre);
    vf_check(consumed == text.size(), "the whole text is written");
    vf_check(lines == 1, "preformatted text is one line");
    vf_check(w.m_depth == m.depth && w.m_indent_depth == m.indent_depth, "text leaves tags and indentation alone");
    vf_check(w.m_state == State::normal, "tags and text may follow");
    vf_cover("text");
}

VF_HARNESS(writer_text)
{
    const std::string_view text = vf_any_string("text");
    Text_Sink sink;
    Model m;
    m.width = vf_any<unsigned char>("indent width");
    HTML_Writer w { sink, m.width };
    any_state(w, m);
    const Style style = any_style();
    vf_assume(style != Style::pre);
    sink.pre = false;
    expected = text;
    consumed = newlines = 0;
    line_start = true;
    expect_state = block_like(style) && !m.new_line ? State::normal : State::new_line;
    const Size lines = w.write_inner_text(text, style);
    vf_check(consumed == text.size(), "the whole text is written");
    const bool open = !line_start;
    vf_check(lines == newlines + open, "the lines are counted");
    vf_check(w.m_depth == m.depth && w.m_indent_depth == m.indent_depth, "text leaves tags and indentation alone");
    vf_check(w.m_state == State::normal || w.m_state == State::new_line, "tags and text may follow");
    vf_cover("text");
}

// <tag key>, <tag key=value> or <tag key="value">
namespace {

struct Attribute_Sink : HTML_Token_Consumer {
    std::string_view key;
    int phase = 0; // 0 space, 1 key, 2 =, 3 quote or value, 4 in the value, 5 end
    bool quoted = false;

    bool write(char c, TT t) override
    {
        switch (t) {
        case TT::whitespace:
            vf_check(phase == 0 && c == ' ', "a space separates attributes");
            phase = 1;
            break;
        case TT::attribute_equal:
            vf_check(phase == 2 && c == '=', "an equals sign follows the key");
            phase = 3;
            break;
        case TT::attribute_quote:
            vf_check(c == '"', "values are quoted by double quotes");
            vf_check(phase == 3 || (phase == 4 && quoted), "quotes are around the value");
            phase = phase == 3 ? 4 : 5;
            quoted = true;
            break;
        case TT::attribute_value: write(std::string_view(&c, 1), t); break;
        default: vf_check(false, "an attribute consists of key, equals sign, quotes and value");
        }
        return true;
    }
    bool write(char c, Size n, TT t) override
    {
        vf_check(n == 1, "separators are single characters");
        return write(c, t);
    }
    bool write(std::string_view s, TT t) override
    {
        if (t == TT::attribute_key) {
            vf_check(phase == 1 && s.data() == key.data() && s.size() == key.size(), "the key is written after the space");
            phase = 2;
            return true;
        }
        vf_check(bool(int(t == TT::attribute_value) & (int(phase == 3) | int(phase == 4))), "the value is written after the equals sign");
        phase = 4;
        if (!from_input(s)) {
            decoded(s);
            return true;
        }
        if (s.empty()) {
            return true;
        }
        vf_check(bool(int(consumed <= expected.size()) & int(s.size() <= expected.size() - consumed)), "the output is no longer than the input");
        const auto j = vf_any<unsigned long>("j");
        vf_assume(j < s.size());
        vf_mention(vf_rec_all_unquoted, expected.data(), consumed + j + 1);
        vf_mention(vf_rec_all_no_amp, s.data(), j + 1);
        vf_mention(vf_rec_all_no_quot, s.data(), j + 1);
        vf_check(s[j] == expected[consumed + j], "the output decodes to the input");
        vf_check(bool(int(s[j] != '&') & int(s[j] != '"')), "quotes and ampersands are escaped");
        vf_check(quoted || UNQUOTED(s[j]), "values with a meaning in HTML are quoted");
        consumed += s.size();
        return true;
    }
};

} // namespace

VF_HARNESS(writer_attribute)
{
    const std::string_view value = vf_any_string("value");
    Attribute_Sink sink;
    sink.key = any_identifier("key");
    HTML_Writer w { sink, 4 };
    w.m_state = State::attributes;
    w.m_depth = vf_any<unsigned long>("depth");
    w.m_indent_depth = vf_any<unsigned long>("indentation depth");
    const unsigned long depth = w.m_depth, indent_depth = w.m_indent_depth;
    expected = value;
    consumed = 0;
    {
        Attribute_Writer& a = *new Attribute_Writer { w, Style::block }; // (never destroyed: nobody ends the tag)
        Attribute_Writer& q = a.write_attribute(sink.key, value);
        vf_check(&q == &a, "the writer is returned");
    }
    vf_check(consumed == value.size(), "the whole value is written");
    vf_check(value.empty() ? sink.phase == 2 : sink.quoted ? sink.phase == 5 : sink.phase == 3 || sink.phase == 4, "quotes are balanced, and an empty value is omitted");
    vf_check(w.m_state == State::attributes && w.m_depth == depth && w.m_indent_depth == indent_depth, "more attributes may follow");
    vf_cover("attribute");
}
