// Contract language of the deductive verifier (see DESIGN.md).  The same harness is executed
// symbolically (bmv/sym.py, over the LLVM IR of the real code) and natively (replay of counterexamples).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>

extern "C" {
void vf_any_bytes(void* p, unsigned long n, const char* name) noexcept;
unsigned long vf_any_u64(const char* name) noexcept;
unsigned long vf_any_len(const char* name) noexcept;
unsigned vf_choose(const char* name, unsigned n) noexcept;
const char* vf_any_data(const char* name, unsigned long len) noexcept;
void* vf_any_array(const char* name, unsigned long elem, unsigned long count) noexcept;
void vf_assume(bool c) noexcept;
void vf_check(bool c, const char* label) noexcept;
void vf_cover(const char* label) noexcept;
void vf_hint(bool (*f)(const char*, unsigned long), const char*) noexcept;
void vf_hint_off(bool (*f)(const char*, unsigned long), const char*, long offset) noexcept;
void vf_hint_down(bool (*f)(const char*, unsigned long, unsigned long), const char*, unsigned long) noexcept;
void vf_hint_rel(bool (*f)(const char*, unsigned long, unsigned long, unsigned long), const char*, unsigned long) noexcept;
unsigned long vf_concretize(unsigned long) noexcept;
bool vf_is_symbolic() noexcept;
// p points into (or to the end of) the n bytes at base
bool vf_within(const void* p, const void* base, unsigned long n) noexcept;
void vf_debug(const char*, unsigned long) noexcept;
void vf_inv(bool (*f)(const void*), const void*) noexcept;

// the C library's memchr, for sequences of symbolic length
__attribute__((used, weak)) const char* vf_stub_memchr(const char* p, int c, unsigned long n) noexcept
{
    for (const char* const e = p + n; p != e; ++p) {
        if (*p == char(c)) {
            return p;
        }
    }
    return nullptr;
}
}

template <typename T>
inline T vf_any(const char* name)
{
    if constexpr (std::is_same_v<T, bool>) {
        unsigned char b;
        vf_any_bytes(&b, 1, name);
        vf_assume(b <= 1);
        return b != 0;
    }
    else {
        static_assert(std::is_integral_v<T> || std::is_enum_v<T> || sizeof(T) == 16);
        T t;
        vf_any_bytes(&t, sizeof(T), name);
        return t;
    }
}

// an arbitrary string of arbitrary length (no bound)
inline std::string_view vf_any_string(const char* name)
{
    const unsigned long n = vf_any_len(name);
    return { vf_any_data(name, n), n };
}

// states the definition of a ghost at a constant position
template <typename R>
inline void vf_mention(R (*f)(const char*, unsigned long) noexcept, const char* s, unsigned long k)
{
    if (vf_is_symbolic()) {
        (void)f(s, k);
    }
}

// ghosts with a value: the loop invariants may equate them with a variable of the same width
template <typename R>
inline void vf_hint_value(R (*f)(const char*, unsigned long) noexcept, const char* s)
{
    vf_hint(reinterpret_cast<bool (*)(const char*, unsigned long)>(f), s);
}

using vf_i128 = __int128;
using vf_u128 = unsigned __int128;

// Calls f; an escaping exception is turned into a value so that contracts can talk about it.
#define VF_HARNESS(name) extern "C" void vfh_##name()
