// Contracts of operator evaluation: src/bms/evaluation/operations.cpp, concrete_value.hpp, value.hpp
#include "vf.hpp"

#include "bms/analysis_error.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/evaluation/operations.hpp"
#include "bms/expression_type.hpp"

using namespace bit_manipulation;
using namespace bit_manipulation::bms;
using E = Expression_Type;
using EE = Evaluation_Error_Code;

namespace {

constexpr E all_binary[] = { E::logical_and,  E::logical_or,    E::equals,       E::not_equals,  E::less_than,
                             E::greater_than, E::less_or_equal, E::greater_or_equal, E::binary_plus, E::binary_minus,
                             E::multiplication, E::division,    E::remainder,    E::shift_left,  E::shift_right,
                             E::bitwise_and,  E::bitwise_or,    E::bitwise_xor };
constexpr unsigned n_binary = 18;
constexpr E all_unary[] = { E::unary_plus, E::unary_minus, E::logical_not, E::bitwise_not };

int any_width(const char* name)
{
    const int w = vf_any<int>(name);
    vf_assume(w >= 1 && w <= 128);
    return w;
}

vf_u128 ones(int w)
{
    return w == 128 ? ~vf_u128(0) : (vf_u128(1) << w) - 1;
}

Concrete_Type uint_type(int w)
{
    return Concrete_Type::Uint(w);
}

// kind: 0 Void, 1 Bool, 2 Int, 3 Uint
Concrete_Type any_type(unsigned kind, const char* wname)
{
    switch (kind) {
    case 0: return Concrete_Type::Void;
    case 1: return Concrete_Type::Bool;
    case 2: return Concrete_Type::Int;
    default: return uint_type(any_width(wname));
    }
}

bool canonical(Concrete_Type t, vf_i128 v)
{
    switch (t.type()) {
    case Type_Type::Void: return v == 0;
    case Type_Type::Bool: return v == 0 || v == 1;
    case Type_Type::Int: return true;
    case Type_Type::Uint: return (vf_u128(v) & ~ones(t.width())) == 0;
    }
    return false;
}

Concrete_Value any_value(unsigned kind, const char* wname, const char* vname)
{
    const Concrete_Type t = any_type(kind, wname);
    const vf_i128 v = vf_any<vf_i128>(vname);
    vf_assume(canonical(t, v));
    return Concrete_Value { t, v };
}

bool same_type(Concrete_Type a, Concrete_Type b)
{
    return a.type() == b.type() && a.width() == b.width();
}

} // namespace

// ---- P01: unsigned arithmetic --------------------------------------------------------------------
VF_HARNESS(uint_binary)
{
    const E op = all_binary[vf_choose("op", n_binary)];
    if (op == E::logical_and || op == E::logical_or) {
        return;
    }
    const int w = any_width("width");
    const vf_u128 x = vf_any<vf_u128>("x"), y = vf_any<vf_u128>("y");
    vf_assume((x & ~ones(w)) == 0 && (y & ~ones(w)) == 0);
    const Concrete_Value a { uint_type(w), vf_i128(x) }, b { uint_type(w), vf_i128(y) };
    const Result<Concrete_Value, EE> r = evaluate_binary_operator(a, op, b);
    const bool div = op == E::division || op == E::remainder;
    const bool shift = op == E::shift_left || op == E::shift_right;
    if (div && y == 0) {
        vf_check(!r && r.error() == EE::division_by_zero, "division or remainder by zero is reported");
        vf_cover("division by zero");
        return;
    }
    if (shift && y >= vf_u128(w)) {
        vf_check(!r && r.error() == EE::shift_too_much, "a shift by the width or more is reported");
        vf_cover("oversized shift");
        return;
    }
    vf_check(bool(r), "the operation is defined");
    vf_u128 e = 0;
    bool boolean = false;
    switch (op) {
    case E::binary_plus: e = x + y; break;
    case E::binary_minus: e = x - y; break;
    case E::multiplication: e = x * y; break;
    case E::division: e = x / y; break;
    case E::remainder: e = x % y; break;
    case E::shift_left: e = x << y; break;
    case E::shift_right: e = x >> y; break;
    case E::bitwise_and: e = x & y; break;
    case E::bitwise_or: e = x | y; break;
    case E::bitwise_xor: e = x ^ y; break;
    case E::equals: e = x == y; boolean = true; break;
    case E::not_equals: e = x != y; boolean = true; break;
    case E::less_than: e = x < y; boolean = true; break;
    case E::greater_than: e = x > y; boolean = true; break;
    case E::less_or_equal: e = x <= y; boolean = true; break;
    case E::greater_or_equal: e = x >= y; boolean = true; break;
    default: break;
    }
    e &= ones(w);
    vf_check(same_type(r->type, boolean ? Concrete_Type::Bool : uint_type(w)), "the result has the operand type (Bool for comparisons)");
    vf_check(vf_u128(r->int_value) == e, "the result is exact modulo 2^N");
    vf_cover("defined");
}

namespace {

// An outcome computed by the contract: the reference semantics of the operators, written
// independently of the code under verification.
struct Expect {
    enum { type_error, div0, shift, range, value, overflow } kind;
    Concrete_Type type = Concrete_Type::Void;
    vf_i128 v = 0;
};

bool is_cmp(E op)
{
    return op == E::equals || op == E::not_equals || op == E::less_than || op == E::greater_than
        || op == E::less_or_equal || op == E::greater_or_equal;
}

bool is_rel(E op)
{
    return is_cmp(op) && op != E::equals && op != E::not_equals;
}

bool is_logic(E op)
{
    return op == E::logical_and || op == E::logical_or;
}

bool is_arith(E op)
{
    return op == E::binary_plus || op == E::binary_minus || op == E::multiplication || op == E::division
        || op == E::remainder;
}

bool is_bits(E op)
{
    return op == E::bitwise_and || op == E::bitwise_or || op == E::bitwise_xor || op == E::shift_left
        || op == E::shift_right;
}

// typing table; returns false if the operation is ill-typed, and sets the common operand type
bool binary_type(E op, Concrete_Type a, Concrete_Type b, Concrete_Type& common, Concrete_Type& result)
{
    if (a.type() == Type_Type::Void || b.type() == Type_Type::Void) {
        return false;
    }
    if (a.type() == b.type()) {
        if (a.width() != b.width()) {
            return false;
        }
        common = a;
    }
    else if (a.type() == Type_Type::Uint && b.type() == Type_Type::Int) {
        common = a;
    }
    else if (a.type() == Type_Type::Int && b.type() == Type_Type::Uint) {
        common = b;
    }
    else {
        return false;
    }
    switch (common.type()) {
    case Type_Type::Bool:
        if (!is_logic(op) && op != E::equals && op != E::not_equals) {
            return false;
        }
        result = Concrete_Type::Bool;
        return true;
    case Type_Type::Int:
        if (is_bits(op) || is_logic(op)) {
            return false;
        }
        result = is_cmp(op) ? Concrete_Type::Bool : common;
        return true;
    default:
        if (is_logic(op)) {
            return false;
        }
        result = is_cmp(op) ? Concrete_Type::Bool : common;
        return true;
    }
}

bool fits(Concrete_Type t, vf_i128 v)
{
    // can the Int v be represented in the Uint type t?
    return v >= 0 && (vf_u128(v) & ~ones(t.width())) == 0;
}

Expect reference(E op, Concrete_Value a, Concrete_Value b)
{
    Concrete_Type common = Concrete_Type::Void, result = Concrete_Type::Void;
    if (!binary_type(op, a.type, b.type, common, result)) {
        return { Expect::type_error };
    }
    const vf_i128 x = a.int_value, y = b.int_value;
    if (common.type() == Type_Type::Bool) {
        const bool p = x != 0, q = y != 0;
        return { Expect::value, result,
                 op == E::logical_and      ? (p && q)
                     : op == E::logical_or ? (p || q)
                     : op == E::equals     ? (p == q)
                                           : (p != q) };
    }
    if (common.type() == Type_Type::Int) {
        vf_i128 r = 0;
        switch (op) {
        case E::equals: r = x == y; break;
        case E::not_equals: r = x != y; break;
        case E::less_than: r = x < y; break;
        case E::greater_than: r = x > y; break;
        case E::less_or_equal: r = x <= y; break;
        case E::greater_or_equal: r = x >= y; break;
        case E::binary_plus:
            if (__builtin_add_overflow(x, y, &r)) {
                return { Expect::overflow };
            }
            break;
        case E::binary_minus:
            if (__builtin_sub_overflow(x, y, &r)) {
                return { Expect::overflow };
            }
            break;
        case E::multiplication:
            if (__builtin_mul_overflow(x, y, &r)) {
                return { Expect::overflow };
            }
            break;
        case E::division:
        case E::remainder:
            if (y == 0) {
                return { Expect::div0 };
            }
            if (y == -1 && x == vf_i128(vf_u128(1) << 127)) {
                return { Expect::overflow };
            }
            r = op == E::division ? x / y : x % y;
            break;
        default: break;
        }
        return { Expect::value, result, r };
    }
    if (a.type.type() == Type_Type::Int && !fits(common, x)) {
        return { Expect::range };
    }
    if (b.type.type() == Type_Type::Int && !fits(common, y)) {
        return { Expect::range };
    }
    const vf_u128 u = vf_u128(x), v = vf_u128(y), m = ones(common.width());
    vf_u128 r = 0;
    switch (op) {
    case E::binary_plus: r = (u + v) & m; break;
    case E::binary_minus: r = (u - v) & m; break;
    case E::multiplication: r = (u * v) & m; break;
    case E::division:
    case E::remainder:
        if (v == 0) {
            return { Expect::div0 };
        }
        r = op == E::division ? u / v : u % v;
        break;
    case E::shift_left:
    case E::shift_right:
        if (v >= vf_u128(common.width())) {
            return { Expect::shift };
        }
        r = op == E::shift_left ? (u << v) & m : u >> v;
        break;
    case E::bitwise_and: r = u & v; break;
    case E::bitwise_or: r = u | v; break;
    case E::bitwise_xor: r = u ^ v; break;
    case E::equals: r = u == v; break;
    case E::not_equals: r = u != v; break;
    case E::less_than: r = u < v; break;
    case E::greater_than: r = u > v; break;
    case E::less_or_equal: r = u <= v; break;
    case E::greater_or_equal: r = u >= v; break;
    default: break;
    }
    return { Expect::value, result, vf_i128(r) };
}

EE code_of(const Expect& e)
{
    switch (e.kind) {
    case Expect::type_error: return EE::type_error;
    case Expect::div0: return EE::division_by_zero;
    case Expect::shift: return EE::shift_too_much;
    default: return EE::int_to_uint_range_error;
    }
}

bool in_domain(E op, Concrete_Type a, Concrete_Type b)
{
    Concrete_Type c = Concrete_Type::Void, r = Concrete_Type::Void;
    return binary_type(op, a, b, c, r);
}

void check_outcome(const Result<Concrete_Value, EE>& r, const Expect& e)
{
    if (e.kind != Expect::value) {
        vf_check(!r, "an undefined operation is reported as an error");
        vf_check(r.error() == code_of(e), "the reported error names the reason");
        return;
    }
    vf_check(bool(r), "a defined operation yields a value");
    vf_check(same_type(r->type, e.type), "the value has the predicted type");
    vf_check(r->int_value == e.v, "the value is the mathematical result");
}

} // namespace

// ---- P02: Int and Bool evaluation, mixed operands ------------------------------------------------
VF_HARNESS(int_binary)
{
    const E op = all_binary[vf_choose("op", n_binary)];
    const Concrete_Value a = any_value(2, "wa", "x"), b = any_value(2, "wb", "y");
    const Expect e = reference(op, a, b);
    vf_assume(e.kind != Expect::overflow);
    check_outcome(evaluate_binary_operator(a, op, b), e);
    vf_cover("int");
}

VF_HARNESS(bool_binary)
{
    const E op = all_binary[vf_choose("op", n_binary)];
    const Concrete_Value a = any_value(1, "wa", "x"), b = any_value(1, "wb", "y");
    check_outcome(evaluate_binary_operator(a, op, b), reference(op, a, b));
    vf_cover("bool");
}

VF_HARNESS(mixed_binary)
{
    const E op = all_binary[vf_choose("op", n_binary)];
    const bool left = vf_choose("which operand is Int", 2) == 0;
    const Concrete_Value a = any_value(left ? 2 : 3, "wa", "x"), b = any_value(left ? 3 : 2, "wb", "y");
    check_outcome(evaluate_binary_operator(a, op, b), reference(op, a, b));
    vf_cover("mixed");
}

VF_HARNESS(unary)
{
    const E op = all_unary[vf_choose("op", 4)];
    const unsigned k = vf_choose("kind", 4);
    const Concrete_Value a = any_value(k, "w", "x");
    const bool ok = k == 1 ? op == E::logical_not
        : k == 2           ? op == E::unary_minus || op == E::unary_plus
        : k == 3           ? op != E::logical_not
                           : false;
    if (!ok) {
        check_outcome(evaluate_unary_operator(op, a), { Expect::type_error });
        vf_cover("ill-typed");
        return;
    }
    const vf_i128 x = a.int_value;
    if (k == 2 && op == E::unary_minus) {
        vf_assume(x != vf_i128(vf_u128(1) << 127));
    }
    vf_i128 e = x;
    if (op == E::logical_not) {
        e = x == 0;
    }
    if (op == E::bitwise_not) {
        e = vf_i128(~vf_u128(x) & ones(a.type.width()));
    }
    if (op == E::unary_minus) {
        e = k == 3 ? vf_i128((vf_u128(0) - vf_u128(x)) & ones(a.type.width())) : -x;
    }
    check_outcome(evaluate_unary_operator(op, a), { Expect::value, a.type, e });
    vf_cover("well-typed");
}

VF_HARNESS(if_expression)
{
    const unsigned ka = vf_choose("left kind", 4), kb = vf_choose("right kind", 4), kc = vf_choose("condition kind", 4);
    const Concrete_Value a = any_value(ka, "wa", "x"), b = any_value(kb, "wb", "y"), c = any_value(kc, "wc", "c");
    const Result<Concrete_Value, EE> r = evaluate_if_expression(a, c, b);
    Expect e { Expect::type_error };
    Concrete_Type common = Concrete_Type::Void;
    bool ok = false;
    if (ka == kb) {
        ok = a.type.width() == b.type.width();
        common = a.type;
    }
    else if (ka == 2 && kb == 3) {
        ok = true;
        common = b.type;
    }
    else if (ka == 3 && kb == 2) {
        ok = true;
        common = a.type;
    }
    const Result<Concrete_Type, Analysis_Error_Code> t = check_if_expression(a.type, c.type, b.type);
    if (kc == 1 && ok) {
        const Concrete_Value s = c.int_value != 0 ? a : b;
        vf_check(t && same_type(*t, common), "the type of an if expression is the common type of its branches");
        if (common.type() == Type_Type::Uint && s.type.type() == Type_Type::Int && !fits(common, s.int_value)) {
            e = { Expect::range };
            vf_cover("selected Int out of range");
        }
        else {
            e = { Expect::value, common, s.int_value };
            vf_cover("selected");
        }
    }
    else {
        vf_check(!t, "an ill-typed if expression is rejected");
        if (kc != 1) {
            vf_check(t.error() == Analysis_Error_Code::condition_not_bool, "the condition must be Bool");
        }
    }
    check_outcome(r, e);
}

// ---- P03: typing rules --------------------------------------------------------------------------
VF_HARNESS(binary_typing)
{
    using A = Analysis_Error_Code;
    const unsigned k = vf_choose("op", 27);
    const E op = static_cast<E>(k);
    const unsigned ka = vf_choose("left kind", 4), kb = vf_choose("right kind", 4);
    const Concrete_Type a = any_type(ka, "wa"), b = any_type(kb, "wb");
    const Result<Concrete_Type, A> r = check_binary_operator(a, op, b);
    bool is_op = false;
    for (E o : all_binary) {
        is_op |= o == op;
    }
    if (!is_op) {
        vf_check(!r && r.error() == A::invalid_operator, "only binary operators are accepted");
        vf_cover("not a binary operator");
        return;
    }
    Concrete_Type common = Concrete_Type::Void, result = Concrete_Type::Void;
    const bool ok = binary_type(op, a, b, common, result);
    vf_check(bool(r) == ok, "exactly the well-typed operations are accepted");
    if (ok) {
        vf_check(same_type(*r, result), "comparisons yield Bool, other operators the common operand type");
        vf_cover("accepted");
        return;
    }
    const A e = r.error();
    if (ka == 0 || kb == 0) {
        vf_check(e == A::void_operation, "Void operands are rejected as such");
    }
    else if (ka == 3 && kb == 3 && a.width() != b.width()) {
        vf_check(e == A::incompatible_widths, "Uint operands of different width are rejected as such");
    }
    else if ((ka == 1) != (kb == 1)) {
        vf_check(e == A::incompatible_types, "Bool and integer operands are incompatible");
    }
    else if (ka == 1) {
        vf_check(e == (is_arith(op) ? A::bool_arithmetic : is_bits(op) ? A::bool_bitwise : A::bool_relational_comparison),
                 "the rejected Bool operation is named");
    }
    else if (ka == 2 && kb == 2) {
        vf_check(e == (is_bits(op) ? A::int_bitwise : A::int_logical), "the rejected Int operation is named");
    }
    else {
        vf_check(e == A::uint_logical, "the rejected Uint operation is named");
    }
    vf_cover("rejected");
}

VF_HARNESS(unary_typing)
{
    using A = Analysis_Error_Code;
    const E op = static_cast<E>(vf_choose("op", 27));
    const unsigned k = vf_choose("kind", 4);
    const Concrete_Type a = any_type(k, "w");
    const Result<Concrete_Type, A> r = check_unary_operator(op, a);
    const bool is_op = op == E::unary_plus || op == E::unary_minus || op == E::logical_not || op == E::bitwise_not;
    if (!is_op) {
        vf_check(!r && r.error() == A::invalid_operator, "only prefix operators are accepted");
        return;
    }
    const bool ok = k == 1 ? op == E::logical_not
        : k == 2           ? op == E::unary_minus || op == E::unary_plus
        : k == 3           ? op != E::logical_not
                           : false;
    vf_check(bool(r) == ok, "exactly the well-typed operations are accepted");
    if (ok) {
        vf_check(same_type(*r, a), "a prefix operator keeps the type of its operand");
        vf_cover("accepted");
        return;
    }
    const A e = r.error();
    vf_check(e == (k == 0                        ? A::void_operation
                       : k == 1                  ? (op == E::bitwise_not ? A::bool_bitwise : A::bool_arithmetic)
                       : k == 3                  ? A::uint_logical
                       : op == E::bitwise_not    ? A::int_bitwise
                                                 : A::int_logical),
             "the rejected operation is named");
    vf_cover("rejected");
}

VF_HARNESS(common_type)
{
    using A = Analysis_Error_Code;
    const unsigned ka = vf_choose("left kind", 4), kb = vf_choose("right kind", 4);
    const Concrete_Type a = any_type(ka, "wa"), b = any_type(kb, "wb");
    const Result<Concrete_Type, A> r = get_common_type(a, b), s = get_common_type(b, a);
    vf_check(bool(r) == bool(s), "the common type does not depend on the order");
    if (r) {
        vf_check(same_type(*r, *s), "the common type does not depend on the order");
        vf_check(a.is_convertible_to(*r) && b.is_convertible_to(*r), "both types convert to the common type");
        vf_check(same_type(*r, a) || same_type(*r, b), "the common type is one of the two types");
        vf_cover("exists");
    }
    else {
        vf_check(!a.is_convertible_to(b) && !b.is_convertible_to(a), "convertible types have a common type");
        vf_check(r.error() == (ka == 3 && kb == 3 ? A::incompatible_widths : A::incompatible_types),
                 "the reason for a missing common type is named");
        vf_cover("missing");
    }
    vf_check(a.is_convertible_to(b) == (same_type(a, b) || (ka == 2 && kb == 3)),
             "only the same type and Int to Uint are convertible");
}

// ---- P04: totality --------------------------------------------------------------------------------
VF_HARNESS(binary_total)
{
    const E op = all_binary[vf_choose("op", n_binary)];
    const unsigned ka = vf_choose("left kind", 4), kb = vf_choose("right kind", 4);
    const Concrete_Value a = any_value(ka, "wa", "x"), b = any_value(kb, "wb", "y");
    if (ka == 2 && kb == 2) {
        vf_assume(reference(op, a, b).kind != Expect::overflow);
    }
    const Result<Concrete_Type, Analysis_Error_Code> t = check_binary_operator(a.type, op, b.type);
    const Result<Concrete_Value, EE> r = evaluate_binary_operator(a, op, b);
    if (!t) {
        vf_check(!r && r.error() == EE::type_error, "what the type check rejects is not evaluated");
        vf_cover("rejected");
        return;
    }
    if (r) {
        vf_check(same_type(r->type, *t), "the value has the type the type check predicted");
        vf_check(canonical(r->type, r->int_value), "the value lies in the range of its type");
        vf_cover("evaluated");
        return;
    }
    const bool uint = a.type.type() == Type_Type::Uint || b.type.type() == Type_Type::Uint;
    const bool div = op == E::division || op == E::remainder;
    const bool shift = op == E::shift_left || op == E::shift_right;
    const EE e = r.error();
    vf_check(e == EE::division_by_zero || e == EE::shift_too_much || e == EE::int_to_uint_range_error,
             "a well-typed operation only fails for a defined reason");
    vf_check(e != EE::division_by_zero || (div && b.int_value == 0), "division by zero is reported only for zero divisors");
    vf_check(e != EE::shift_too_much || (shift && uint), "excessive shifts are reported only for shifts");
    vf_check(e != EE::int_to_uint_range_error || ka != kb, "range errors are reported only for mixed operands");
    vf_cover("failed");
}

VF_HARNESS(builtin_assert)
{
    const unsigned n = vf_choose("argument count", 3);
    const unsigned k = vf_choose("kind", 4);
    const Concrete_Value args[2] = { any_value(k, "w", "x"), any_value(1, "w2", "x2") };
    const Result<Concrete_Value, EE> r
        = evaluate_builtin_function(Builtin_Function::assert, std::span<const Concrete_Value>(args, n));
    const Result<Concrete_Type, Analysis_Error_Code> t
        = check_builtin_function(Builtin_Function::assert, std::span<const Concrete_Value>(args, n));
    if (n != 1 || k != 1) {
        vf_check(!t, "assert takes exactly one Bool");
        vf_check(t.error() == (n != 1 ? Analysis_Error_Code::wrong_number_of_arguments : Analysis_Error_Code::wrong_argument_type),
                 "the misuse of assert is named");
        vf_check(!r && r.error() == EE::type_error, "a misused assert is not evaluated");
        vf_cover("misuse");
        return;
    }
    vf_check(t && same_type(*t, Concrete_Type::Void), "assert yields Void");
    if (args[0].int_value == 0) {
        vf_check(!r && r.error() == EE::assertion_fail, "assert(false) fails");
        vf_cover("fails");
    }
    else {
        vf_check(r && same_type(r->type, Concrete_Type::Void), "assert(true) passes");
        vf_cover("passes");
    }
}

// ---- P05: partial evaluation ----------------------------------------------------------------------
namespace {

// The abstract value of c if `known`, otherwise an unknown value of the same type.
Value abstraction(Concrete_Value c, bool known)
{
    return known ? Value { c } : Value::unknown_of_type(c.type);
}

void check_abstracts(const Result<Value, EE>& r, const Result<Concrete_Value, EE>& c, bool all_known, Concrete_Type type)
{
    if (c) {
        vf_check(bool(r), "partial evaluation never fails where some concrete evaluation succeeds");
        vf_check(same_type(r->get_type(), type), "partial evaluation predicts the type");
        if (r->is_known()) {
            vf_check(r->concrete_value().int_value == c->int_value, "a known result equals the concrete result");
            vf_cover("known result");
        }
    }
    else if (!r) {
        vf_check(r.error() == c.error() || !all_known, "the errors agree");
        vf_cover("error");
    }
    if (all_known) {
        vf_check(bool(r) == bool(c), "with known operands, partial evaluation is evaluation");
        vf_check(!r || r->is_known(), "known operands give a known result");
        if (!r) {
            vf_check(r.error() == c.error(), "with known operands, the errors agree");
        }
    }
}

} // namespace

VF_HARNESS(partial_binary)
{
    const E op = all_binary[vf_choose("op", n_binary)];
    const unsigned ka = vf_choose("left kind", 4), kb = vf_choose("right kind", 4);
    const unsigned known = vf_choose("known", 4);
    const Concrete_Value a = any_value(ka, "wa", "x"), b = any_value(kb, "wb", "y");
    const Expect e = reference(op, a, b);
    vf_assume(e.kind != Expect::overflow);
    const Result<Value, EE> r = evaluate_binary_operator(abstraction(a, known & 1), op, abstraction(b, known & 2));
    if (e.kind == Expect::type_error) {
        vf_check(!r && r.error() == EE::type_error, "ill-typed operations are rejected without knowing the operands");
        vf_cover("ill-typed");
        return;
    }
    if (e.kind == Expect::value) {
        vf_check(bool(r), "partial evaluation never fails where the concrete evaluation succeeds");
        vf_check(same_type(r->get_type(), e.type), "partial evaluation predicts the type");
        if (r->is_known()) {
            vf_check(r->concrete_value().int_value == e.v, "a known result equals the concrete result");
            vf_cover("known result");
        }
        else {
            vf_check(known != 3, "known operands give a known result");
            vf_cover("unknown result");
        }
        return;
    }
    if (known == 3) {
        vf_check(!r && r.error() == code_of(e), "with known operands, the errors agree");
        vf_cover("error");
    }
    if ((known & 2) && (e.kind == Expect::div0)) {
        vf_check(!r && r.error() == EE::division_by_zero, "a known zero divisor is reported early");
        vf_cover("early division by zero");
    }
    if (known == 2 && ka == 3 && e.kind == Expect::shift) {
        vf_check(!r && r.error() == EE::shift_too_much, "a known excessive shift is reported early");
        vf_cover("early excessive shift");
    }
}

VF_HARNESS(partial_unary)
{
    const E op = all_unary[vf_choose("op", 4)];
    const unsigned k = vf_choose("kind", 4);
    const bool known = vf_choose("known", 2) != 0;
    const Concrete_Value a = any_value(k, "w", "x");
    if (k == 2 && op == E::unary_minus) {
        vf_assume(a.int_value != vf_i128(vf_u128(1) << 127));
    }
    const Result<Value, EE> r = evaluate_unary_operator(op, abstraction(a, known));
    const Result<Concrete_Value, EE> c = evaluate_unary_operator(op, a);
    vf_check(bool(r) == bool(c), "prefix operators fail only for type errors");
    check_abstracts(r, c, known, a.type);
}

VF_HARNESS(partial_if)
{
    const unsigned ka = vf_choose("left kind", 4), kb = vf_choose("right kind", 4), kc = vf_choose("condition kind", 2);
    const unsigned known = vf_choose("known", 8);
    const Concrete_Value a = any_value(ka, "wa", "x"), b = any_value(kb, "wb", "y"), c = any_value(kc + 1, "wc", "c");
    const Result<Value, EE> r
        = evaluate_if_expression(abstraction(a, known & 1), abstraction(c, known & 4), abstraction(b, known & 2));
    const Result<Concrete_Value, EE> s = evaluate_if_expression(a, c, b);
    const Result<Concrete_Type, Analysis_Error_Code> t = check_if_expression(a.type, c.type, b.type);
    vf_check(bool(t) || (!r && r.error() == EE::type_error), "ill-typed if expressions are rejected");
    check_abstracts(r, s, known == 7, t ? *t : Concrete_Type::Void);
}

VF_HARNESS(partial_assert)
{
    const unsigned k = vf_choose("kind", 4);
    const bool known = vf_choose("known", 2) != 0;
    const Concrete_Value a = any_value(k, "w", "x");
    const Value arg[1] = { abstraction(a, known) };
    const Concrete_Value carg[1] = { a };
    const Result<Value, EE> r = evaluate_builtin_function(Builtin_Function::assert, std::span<const Value>(arg));
    const Result<Concrete_Value, EE> c
        = evaluate_builtin_function(Builtin_Function::assert, std::span<const Concrete_Value>(carg));
    vf_check(k == 1 || (!r && r.error() == EE::type_error), "a misused assert is rejected");
    vf_check(known || k != 1 || bool(r), "assert of an unknown condition does not fail early");
    check_abstracts(r, c, known, Concrete_Type::Void);
}

// ---- P06: conversions ------------------------------------------------------------------------------
VF_HARNESS(conversion)
{
    const unsigned ka = vf_choose("from kind", 4), kb = vf_choose("to kind", 4);
    const bool trunc = vf_choose("truncating", 2) != 0;
    const Concrete_Value a = any_value(ka, "wa", "x");
    const Concrete_Type to = any_type(kb, "wb");
    const Result<Concrete_Value, EE> r
        = trunc ? a.convert_to(to, Conversion_Type::truncating_numeric) : evaluate_conversion(a, to);
    const bool ok = same_type(a.type, to) || (ka == 2 && kb == 3);
    if (!ok) {
        vf_check(!r && r.error() == EE::type_error, "other conversions are type errors");
        vf_cover("type error");
        return;
    }
    if (same_type(a.type, to)) {
        vf_check(r && same_type(r->type, to) && r->int_value == a.int_value, "conversion to the same type is the identity");
        vf_cover("identity");
        return;
    }
    const bool representable = a.int_value >= 0 && (vf_u128(a.int_value) & ~ones(to.width())) == 0;
    if (representable) {
        vf_check(r && same_type(r->type, to) && r->int_value == a.int_value, "representable values are preserved");
        vf_cover("preserved");
    }
    else if (trunc) {
        vf_check(r && same_type(r->type, to) && vf_u128(r->int_value) == (vf_u128(a.int_value) & ones(to.width())),
                 "truncating conversion keeps the low bits");
        vf_cover("truncated");
    }
    else {
        vf_check(!r && r.error() == EE::int_to_uint_range_error, "lossless conversion never changes a value");
        vf_cover("range error");
    }
}

VF_HARNESS(partial_conversion)
{
    const unsigned ka = vf_choose("from kind", 4), kb = vf_choose("to kind", 4);
    const bool known = vf_choose("known", 2) != 0;
    const Concrete_Value a = any_value(ka, "wa", "x");
    const Concrete_Type to = any_type(kb, "wb");
    const unsigned mode = vf_choose("mode", 3);
    const Conversion_Type conv = mode == 2 ? Conversion_Type::truncating_numeric : Conversion_Type::lossless_numeric;
    const Value v = abstraction(a, known);
    const Result<Value, EE> r = mode == 0 ? evaluate_conversion(v, to) : v.convert_to(to, conv);
    const Result<Concrete_Value, EE> c = mode == 0 ? evaluate_conversion(a, to) : a.convert_to(to, conv);
    check_abstracts(r, c, known, to);
    vf_check(r || c.error() == r.error(), "the errors agree");
    if (!known && r) {
        vf_check(r->is_unknown(), "an unknown value stays unknown");
        vf_cover("unknown");
    }
}

VF_HARNESS(value_helpers)
{
    const bool known = vf_choose("known", 2) != 0;
    const Concrete_Value a = any_value(vf_choose("kind", 4), "w", "x");
    const Value v = abstraction(a, known);
    vf_check(v.is_known() == known && v.is_unknown() == !known && bool(v) == known, "a value is known or unknown");
    vf_check(same_type(v.get_type(), a.type), "the type of a value is always known");
    if (known) {
        const Concrete_Value c = v.concrete_value();
        vf_check(same_type(c.type, a.type) && c.int_value == a.int_value, "a known value is the concrete value");
        switch (a.type.type()) {
        case Type_Type::Bool: vf_check(v.as_bool() == (a.int_value != 0), "the Bool value"); break;
        case Type_Type::Int: vf_check(v.as_int() == a.int_value, "the Int value"); break;
        case Type_Type::Uint: vf_check(v.as_uint() == Big_Uint(a.int_value), "the Uint value"); break;
        default: break;
        }
        if (a.type.type() == Type_Type::Uint) {
            const Value n = v.and_then_uint([](Big_Uint x) -> Big_Uint { return ~x; });
            vf_check(n.is_known() && same_type(n.get_type(), a.type), "transforming keeps the type");
            vf_check(n.as_uint() == (~Big_Uint(a.int_value) & ones(a.type.width())), "transforming wraps around");
        }
        vf_cover("known");
    }
    else {
        const Value n = v.and_then_uint([](Big_Uint x) -> Big_Uint { return ~x; });
        vf_check(n.is_unknown() && same_type(n.get_type(), a.type), "transforming an unknown value");
        const Value u = Value::unknown_of_type(a.type);
        vf_check(u.is_unknown() && same_type(u.get_type(), a.type), "unknown_of_type");
        vf_cover("unknown");
    }
}

VF_HARNESS(type_helpers)
{
    const Concrete_Type t = any_type(vf_choose("kind", 4), "w");
    const vf_i128 v = vf_any<vf_i128>("x");
    const vf_u128 m = t.get_mask();
    switch (t.type()) {
    case Type_Type::Void: vf_check(m == 0 && !t.can_represent(v), "Void has no value bits"); break;
    case Type_Type::Bool: vf_check(m == 1 && t.can_represent(v) == (v == 0 || v == 1), "Bool has one value bit"); break;
    case Type_Type::Int: vf_check(m == ~vf_u128(0) && t.can_represent(v), "Int represents every value"); break;
    case Type_Type::Uint:
        vf_check(m == ones(t.width()), "the mask of Uint(N) has exactly the N low bits");
        vf_check(t.can_represent(v) == ((vf_u128(v) & ~ones(t.width())) == 0), "Uint(N) represents 0 to 2^N - 1");
        break;
    }
    vf_check(t.is_integer() == (t.type() == Type_Type::Int || t.type() == Type_Type::Uint), "integer types");
    vf_check(t.is_uint() == (t.type() == Type_Type::Uint), "Uint types");
    vf_cover("types");
}
