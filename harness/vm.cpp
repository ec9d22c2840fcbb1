// Contracts of the virtual machine: src/bms/vm/{vm.cpp,vm.hpp,linear_map_stack.hpp}
#include "vf.hpp"

#include <compare>
#include <cstring>
#include <memory_resource>
#include <optional>
#include <span>
#include <stdexcept>
#include <utility>
#include <vector>

#include "common/result.hpp"
#include "common/variant.hpp"

#include "bms/concrete_value.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/expression_type.hpp"
#include "bms/evaluation/operations.hpp"
#include "bms/vm/execution_error.hpp"
#include "bms/vm/instructions.hpp"
#define private public
#include "bms/vm/linear_map_stack.hpp"
#include "bms/vm/vm.hpp"
#undef private

using namespace bit_manipulation;
using namespace bit_manipulation::bms;
using Entry = Linear_Map_Stack::Entry;
using Key = const void*;

namespace {

// std::pmr::vector<T> with arbitrary contents, and room for two more elements (growing is the C++ library's business)
struct Raw {
    void* memory;
    char *begin, *end, *limit;
};

constexpr unsigned long max_size = 1ul << 32;

template <typename T>
T* any_vector(std::pmr::vector<T>& v, const char* name, unsigned long n)
{
    static_assert(sizeof(std::pmr::vector<T>) == sizeof(Raw));
    vf_assume(n < max_size);
    char* const p = static_cast<char*>(vf_any_array(name, sizeof(T), n + 2));
    Raw& r = reinterpret_cast<Raw&>(v);
    r.memory = nullptr;
    r.begin = p;
    r.end = p + n * sizeof(T);
    r.limit = p + (n + 2) * sizeof(T);
    return reinterpret_cast<T*>(p);
}

bool operator==(const Concrete_Value& a, const Concrete_Value& b)
{
    return bool(int(a.type == b.type) & int(a.int_value == b.int_value));
}

Concrete_Value any_value(const char* name)
{
    const auto x = vf_any<vf_i128>(name);
    switch (vf_choose("type", 4)) {
    case 0: return { Concrete_Type::Void, 0 };
    case 1: return { Concrete_Type::Bool, x & 1 };
    case 2: return { Concrete_Type::Int, x };
    default: {
        const auto w = vf_any<unsigned char>("width");
        vf_assume(w >= 1 && w <= 128);
        return { Concrete_Type::Uint(w), x };
    }
    }
}

// ---- what the instructions use, by contract ------------------------------------------------------
enum struct Used { nothing, find, assign, push_frame, pop_frame, convert, unary, binary, builtin };
Used used;
unsigned uses;
Key key;
Concrete_Value first, second;   // arguments
Concrete_Type to = Concrete_Type::Void;
Expression_Type op;
Builtin_Function builtin;
Entry entry { nullptr, Concrete_Value::Int(0) };
std::optional<Concrete_Value> popped;
std::optional<Concrete_Value> outcome; // of an evaluation
Evaluation_Error_Code failure;

void use(Used u)
{
    used = u;
    ++uses;
}

Result<Concrete_Value, Evaluation_Error_Code> evaluated()
{
    if (outcome) {
        return *outcome;
    }
    return failure;
}

void any_outcome()
{
    if (vf_choose("evaluation succeeds", 2)) {
        outcome = Concrete_Value { Concrete_Type::Int, vf_any<vf_i128>("outcome") };
    }
    else {
        outcome = std::nullopt;
        failure = Evaluation_Error_Code(vf_choose("evaluation error", 5));
    }
}

} // namespace

static_assert(std::is_trivially_destructible_v<Entry> && std::is_trivially_destructible_v<Concrete_Value>);

extern "C" {
void vf_vm_destroy(void*, void*, void*) { } // std::_Destroy for trivial types
Entry* vf_vm_find(Linear_Map_Stack*, Key k)
{
    use(Used::find);
    key = k;
    return popped ? &entry : nullptr;
}
Entry* vf_vm_assign(Linear_Map_Stack*, Key k, Concrete_Value v)
{
    use(Used::assign);
    key = k;
    first = v;
    return &entry;
}
Entry* vf_vm_push_frame(Linear_Map_Stack*, Concrete_Value v)
{
    use(Used::push_frame);
    first = v;
    return &entry;
}
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
std::optional<Concrete_Value> vf_vm_pop_frame(Linear_Map_Stack*)
{
    use(Used::pop_frame);
    return popped;
}
Result<Concrete_Value, Evaluation_Error_Code> vf_vm_convert(Concrete_Value v, Concrete_Type t)
{
    use(Used::convert);
    first = v;
    to = t;
    return evaluated();
}
Result<Concrete_Value, Evaluation_Error_Code> vf_vm_unary(Expression_Type o, Concrete_Value v)
{
    use(Used::unary);
    op = o;
    first = v;
    return evaluated();
}
Result<Concrete_Value, Evaluation_Error_Code> vf_vm_binary(Concrete_Value a, Expression_Type o, Concrete_Value b)
{
    use(Used::binary);
    first = a;
    op = o;
    second = b;
    return evaluated();
}
Result<Concrete_Value, Evaluation_Error_Code> vf_vm_builtin(Builtin_Function f, std::span<const Concrete_Value> args)
{
    use(Used::builtin);
    builtin = f;
    vf_check(args.size() == builtin_parameter_count(f), "a builtin function gets as many arguments as it has parameters");
    first = args[0];
    return evaluated();
}
#pragma clang diagnostic pop
}

namespace {

union Machine {
    Virtual_Machine vm;
    Machine() { }
    ~Machine() { }
};

} // namespace

VF_HARNESS(vm_cycle)
{
    const unsigned kind = vf_choose("instruction", 14);
    Machine m;
    Virtual_Machine& vm = m.vm;
    const auto size = vf_any<unsigned long>("program size");
    Instruction* const program = any_vector(vm.m_instructions, "program", size);
    const auto depth = vf_any<unsigned long>("stack size");
    Concrete_Value* const stack = any_vector(vm.m_stack, "stack", depth);
    const auto counter = vf_any<unsigned long>("counter");
    vf_assume(counter < size);
    vm.m_instruction_counter = counter;
    const bool had_failure = vf_choose("a comparison is remembered", 2);
    const Comparison_Failure earlier { Concrete_Value::Int(1), Concrete_Value::Int(2), Expression_Type::equals };
    ::new (&vm.m_comparison_failure_for_assert) std::optional<Comparison_Failure>();
    if (had_failure) {
        vm.m_comparison_failure_for_assert = earlier;
    }
    const Instruction& i = program[counter];
    vf_assume(i.index() == kind);
    if (kind == 13) {
        vf_assume(get<ins::Builtin_Call>(i).function == Builtin_Function::assert);
    }
    if (kind == 0 || kind == 1) {
        vf_assume((kind == 0 ? get<ins::Load>(i).source : get<ins::Store>(i).target) != nullptr);
    }

    // arbitrary surroundings
    uses = 0;
    used = Used::nothing;
    popped = std::nullopt;
    if (kind == 0 || kind == 8) {
        if (vf_choose("variable or frame exists", 2)) {
            popped = Concrete_Value::Int(vf_any<unsigned long>("return address"));
        }
    }
    if (kind == 0) {
        entry.value = any_value("variable");
    }
    if (kind == 9 || kind == 10 || kind == 11 || kind == 13) {
        any_outcome();
    }
    const unsigned long needs = kind == 1 || kind == 3 || kind == 5 || kind == 9 || kind == 10 || kind == 13 ? 1 : kind == 11 ? 2 : 0;
    const Concrete_Value top = depth >= 1 ? stack[depth - 1] : Concrete_Value::Int(0);
    const Concrete_Value below = depth >= 2 ? stack[depth - 2] : Concrete_Value::Int(0);
    const auto probe = vf_any<unsigned long>("probe");
    const bool probed = vf_choose("probe the stack", 2);
    if (probed) {
        vf_assume(probe < max_size && probe + needs < depth);
    }
    const Concrete_Value untouched = probed ? stack[probe] : Concrete_Value::Int(0);

    const Result<void, Execution_Error> r = vm.cycle();

    vf_check(vm.m_instructions.size() == size && program[counter].index() == kind, "the program is not modified");
    vf_check(!probed || stack[probe] == untouched, "the rest of the stack is not modified");

    // the expected effect
    using Code = Execution_Error_Code;
    std::optional<Code> error;
    unsigned long pops = needs, pushes = 0, next = counter + 1;
    Used expected_use = Used::nothing;
    Concrete_Value pushed = Concrete_Value::Int(0);
    if (depth < needs) {
        error = Code::pop;
    }
    else {
        switch (kind) {
        case 0:
            expected_use = Used::find;
            vf_check(key == get<ins::Load>(i).source, "the variable is loaded");
            if (popped) {
                pushes = 1;
                pushed = entry.value;
            }
            else {
                error = Code::load_uninitialized;
            }
            break;
        case 1:
            expected_use = Used::assign;
            vf_check(key == get<ins::Store>(i).target && first == top, "the top of the stack is assigned to the variable");
            break;
        case 2:
            pushes = 1;
            pushed = get<ins::Push>(i).value;
            break;
        case 3: break;
        case 4:
        case 5: {
            const auto offset = kind == 4 ? get<ins::Relative_Jump>(i).offset : get<ins::Relative_Jump_If>(i).offset;
            const vf_i128 target = vf_i128(counter) + 1 + offset;
            bool taken = true;
            if (kind == 5) {
                if (top.type != Concrete_Type::Bool) {
                    error = Code::jump_if_not_bool;
                    break;
                }
                taken = get<ins::Relative_Jump_If>(i).expected == (top.int_value != 0);
            }
            if (taken) {
                if (target < 0 || target >= vf_i128(size)) {
                    error = Code::jump_out_of_program;
                    vf_cover("jump out of the program");
                }
                else {
                    next = (unsigned long)(target);
                    vf_cover("jump");
                }
            }
            break;
        }
        case 6:
        case 7: error = Code::symbolic_jump; break;
        case 8:
            expected_use = Used::pop_frame;
            if (popped) {
                next = (unsigned long)(popped->int_value);
            }
            else {
                error = Code::pop_call;
            }
            break;
        case 9:
            expected_use = Used::convert;
            vf_check(first == top && to == get<ins::Convert>(i).type, "the top of the stack is converted");
            break;
        case 10:
            expected_use = Used::unary;
            vf_check(first == top && op == get<ins::Unary_Operate>(i).op, "the prefix operator is applied to the top of the stack");
            break;
        case 11:
            expected_use = Used::binary;
            vf_check(first == below && second == top && op == get<ins::Binary_Operate>(i).op,
                     "the operator is applied to the two topmost values in order");
            break;
        case 12:
            if (get<ins::Call>(i).address >= size) {
                error = Code::call_out_of_program;
                vf_cover("call out of the program");
                break;
            }
            expected_use = Used::push_frame;
            vf_check(first == Concrete_Value::Int(vf_i128(counter) + 1), "the address of the next instruction is the return address");
            next = get<ins::Call>(i).address;
            vf_cover("call");
            break;
        default:
            expected_use = Used::builtin;
            vf_check(first == top && builtin == get<ins::Builtin_Call>(i).function, "the builtin function is called with the top of the stack");
        }
        if (kind == 9 || kind == 10 || kind == 11 || kind == 13) {
            if (outcome) {
                pushes = 1;
                pushed = *outcome;
            }
            else {
                error = Code::evaluation;
            }
        }
    }
    if (!error && next == counter) {
        error = Code::infinite_loop;
    }
    vf_check(used == expected_use && uses == unsigned(expected_use != Used::nothing), "nothing else is accessed or evaluated");
    if (error) {
        vf_check(!r && r.error().code == *error, "the error of the instruction is reported");
        if (*error == Code::evaluation) {
            vf_check(r.error().evaluation_error == failure, "the error of the evaluation is reported");
        }
        if (kind == 13 && *error == Code::evaluation) {
            vf_check(r.error().comparison_failure.has_value() == had_failure, "the failed comparison of an assertion is reported");
        }
        else {
            vf_check(!r.error().comparison_failure, "only assertions report a comparison");
        }
        vf_cover("error");
    }
    else {
        vf_check(bool(r), "the instruction succeeds");
        vf_check(vm.m_instruction_counter == next, "the next instruction follows");
        vf_check(vm.m_stack.size() == depth - pops + pushes, "operands are popped and results are pushed");
        if (pushes) {
            vf_check(stack[depth - pops] == pushed, "the result is pushed");
        }
        vf_cover("success");
    }
    // a remembered comparison belongs to the very next assertion
    if (kind == 13 && depth >= 1) {
        vf_check(!vm.m_comparison_failure_for_assert, "an assertion forgets the comparison");
    }
    else if (kind == 11 && !error) {
        const bool asserted = counter + 1 < size && program[counter + 1].index() == 13
            && get<ins::Builtin_Call>(program[counter + 1]).function == Builtin_Function::assert;
        if (asserted) {
            const auto& c = vm.m_comparison_failure_for_assert;
            vf_check(c && c->left == below && c->right == top && c->op == get<ins::Binary_Operate>(i).op,
                     "the operands of a comparison are remembered for the assertion that follows");
            vf_cover("comparison");
        }
    }
}

VF_HARNESS(vm_interface)
{
    Machine m;
    Virtual_Machine& vm = m.vm;
    const auto size = vf_any<unsigned long>("program size");
    any_vector(vm.m_instructions, "program", size);
    const auto depth = vf_any<unsigned long>("stack size");
    Concrete_Value* const stack = any_vector(vm.m_stack, "stack", depth);
    const auto frames = vf_any<unsigned long>("map size");
    any_vector(vm.m_function_frame_stack.m_data, "entries", frames);
    const auto counter = vf_any<unsigned long>("counter");
    vm.m_instruction_counter = counter;
    ::new (&vm.m_comparison_failure_for_assert) std::optional<Comparison_Failure>(
        Comparison_Failure { Concrete_Value::Int(1), Concrete_Value::Int(2), Expression_Type::equals });
    const auto probe = vf_any<unsigned long>("probe");
    vf_assume(probe < depth);
    const Concrete_Value untouched = stack[probe];
    vf_check(vm.instruction_count() == size && vm.stack_size() == depth, "sizes are reported");
    switch (vf_choose("operation", 4)) {
    case 0: {
        const Concrete_Value v = any_value("value");
        vm.push(v);
        vf_check(vm.stack_size() == depth + 1 && stack[probe] == untouched, "a value is pushed");
        const Concrete_Value w = vm.pop();
        vf_check(w == v && vm.stack_size() == depth && stack[probe] == untouched, "the pushed value is popped");
        const Concrete_Value top = stack[depth - 1];
        vf_check(vm.pop() == top && vm.stack_size() == depth - 1, "the topmost value is popped");
        vf_check(vm.m_instruction_counter == counter, "the instruction counter does not change");
        break;
    }
    case 1: {
        const auto to = vf_any<unsigned long>("target");
        vf_assume(to < size);
        vm.jump_to(to);
        vf_check(vm.m_instruction_counter == to, "execution continues at the address");
        vf_check(vm.stack_size() == depth && stack[probe] == untouched, "the stack does not change");
        break;
    }
    case 2:
        vm.reset();
        vf_check(vm.instruction_count() == size, "the program is kept");
        vf_check(vm.stack_size() == 0 && vm.m_function_frame_stack.m_data.empty() && vm.m_instruction_counter == 0
                     && !vm.m_comparison_failure_for_assert,
                 "the machine is as new");
        break;
    default:
        vm.clear();
        vf_check(vm.instruction_count() == 0, "the program is removed");
        vf_check(vm.stack_size() == 0 && vm.m_function_frame_stack.m_data.empty() && vm.m_instruction_counter == 0
                     && !vm.m_comparison_failure_for_assert,
                 "the machine is as new");
    }
}

// ---- Linear_Map_Stack ----------------------------------------------------------------------------

extern "C" {
// none of the k topmost entries has the given key, or is the bottom of a frame
bool vf_rec_all_absent(const char* end, unsigned long key, unsigned long k) noexcept
{
    if (k == 0) {
        return true;
    }
    const auto x = reinterpret_cast<unsigned long>(reinterpret_cast<const Entry*>(end)[-long(k)].key);
    return bool(int(vf_rec_all_absent(end, key, k - 1)) & int(x != key) & int(x != 0));
}
}

namespace {

union Map {
    Linear_Map_Stack map;
    Map() { }
    ~Map() { }
};

// an arbitrary stack, and where the search for a key ends
struct Searched {
    unsigned long size, key, depth;
    bool hit;
    Entry* entries;
    Entry* at; // if hit
};

Searched searched;

Searched any_map(Linear_Map_Stack& m, bool null_key)
{
    Searched r {};
    r.size = vf_any<unsigned long>("size");
    r.entries = any_vector(m.m_data, "entries", r.size);
    if (!null_key) {
        r.key = vf_any<unsigned long>("key");
        vf_assume(r.key != 0);
    }
    const char* const end = reinterpret_cast<const char*>(r.entries + r.size);
    vf_hint_down(vf_rec_all_absent, end, r.key);
    r.hit = vf_choose("the search ends at an entry", 2);
    if (r.hit) {
        r.depth = vf_any<unsigned long>("depth");
        vf_assume(r.depth < r.size);
        vf_assume(vf_rec_all_absent(end, r.key, r.depth));
        if (vf_is_symbolic()) {
            (void)vf_rec_all_absent(end, r.key, r.depth + 1);
        }
        r.at = r.entries + (r.size - 1 - r.depth);
        const auto x = reinterpret_cast<unsigned long>(r.at->key);
        vf_assume(bool(int(x == r.key) | int(x == 0)));
    }
    else {
        vf_assume(vf_rec_all_absent(end, r.key, r.size));
    }
    return r;
}

Key as_key(unsigned long x)
{
    return reinterpret_cast<Key>(x);
}

} // namespace

VF_HARNESS(map_find)
{
    Map m;
    const Searched s = any_map(m.map, false);
    Entry* const r = m.map.find(as_key(s.key));
    if (s.hit && s.at->key == as_key(s.key)) {
        vf_check(r == s.at, "the entry of the current frame is found");
        vf_cover("found");
    }
    else {
        vf_check(r == nullptr, "entries of other frames are not visible");
        vf_cover("absent");
    }
    vf_check(m.map.m_data.size() == s.size, "nothing is added");
}

// find, by its contract (map_find)
extern "C" Entry* vf_map_find(Linear_Map_Stack*, Key k)
{
    vf_check(k == as_key(searched.key), "the entry of the key is searched");
    return searched.hit && searched.at->key == k ? searched.at : nullptr;
}

VF_HARNESS(map_assign)
{
    const bool emplace = vf_choose("emplace", 2);
    Map m;
    const Searched s = searched = any_map(m.map, false);
    const bool existing = s.hit && s.at->key == as_key(s.key);
    const Concrete_Value old = existing ? s.at->value : Concrete_Value::Int(0);
    const auto probe = vf_any<unsigned long>("probe");
    vf_assume(probe < s.size);
    const Key probed_key = s.entries[probe].key;
    const Concrete_Value probed_value = s.entries[probe].value;
    const Concrete_Value v = any_value("value");
    Entry* r;
    bool done = true;
    if (emplace) {
        const Result<Entry*, Entry*> e = m.map.emplace(as_key(s.key), v);
        done = bool(e);
        r = e ? *e : e.error();
    }
    else {
        r = &m.map.assign(as_key(s.key), v);
    }
    if (existing) {
        vf_check(r == s.at, "the existing entry is used");
        if (r != s.at) {
            return;
        }
        vf_check(done == !emplace, "emplace reports the existing entry");
        vf_check(r->key == as_key(s.key) && r->value == (emplace ? old : v), "assign overwrites the value, emplace keeps it");
        vf_check(m.map.m_data.size() == s.size, "no entry is added");
        vf_cover("existing");
    }
    else {
        vf_check(done, "the entry is added");
        vf_check(r == s.entries + s.size && m.map.m_data.size() == s.size + 1, "a new entry is added to the current frame");
        vf_check(r->key == as_key(s.key) && r->value == v, "the new entry has the key and value");
        vf_cover("new");
    }
    vf_check(s.entries[probe].key == probed_key, "keys do not change");
    if (s.entries + probe != r) {
        vf_check(s.entries[probe].value == probed_value, "other entries do not change");
    }
}

VF_HARNESS(map_push_frame)
{
    Map m;
    const auto size = vf_any<unsigned long>("size");
    Entry* const entries = any_vector(m.map.m_data, "entries", size);
    const auto probe = vf_any<unsigned long>("probe");
    vf_assume(probe < size);
    const Key probed_key = entries[probe].key;
    const Concrete_Value probed_value = entries[probe].value;
    const Concrete_Value v = any_value("value");
    Entry& r = m.map.push_frame(v);
    vf_check(&r == entries + size && m.map.m_data.size() == size + 1, "an entry is added");
    vf_check(r.key == nullptr && r.value == v, "the entry delimits the frame and has the value");
    vf_check(entries[probe].key == probed_key && entries[probe].value == probed_value, "the callers' entries do not change");
    m.map.clear();
    vf_check(m.map.m_data.empty(), "no entries remain");
}

VF_HARNESS(map_pop_frame)
{
    Map m;
    const Searched s = any_map(m.map, true);
    const Concrete_Value bottom = s.hit ? s.at->value : Concrete_Value::Int(0);
    const auto probe = vf_any<unsigned long>("probe");
    vf_assume(probe < s.size);
    const Key probed_key = s.entries[probe].key;
    const Concrete_Value probed_value = s.entries[probe].value;
    const std::optional<Concrete_Value> r = m.map.pop_frame();
    vf_check(r.has_value() == s.hit, "there is a frame to be removed");
    if (s.hit) {
        vf_check(*r == bottom, "the value of the frame is returned");
        vf_check(m.map.m_data.size() == s.size - 1 - s.depth, "exactly the topmost frame is removed");
        vf_cover("frame");
    }
    else {
        vf_check(m.map.m_data.size() == s.size, "nothing is removed");
        vf_cover("no frame");
    }
    vf_check(s.entries[probe].key == probed_key && s.entries[probe].value == probed_value, "the remaining entries do not change");
}
