// Contracts of the vocabulary types: common/result.hpp, variant.hpp, tribool.hpp
#include "vf.hpp"

#include "common/fwd.hpp"
#include "common/result.hpp"
#include "common/tribool.hpp"
#include "common/variant.hpp"

using namespace bit_manipulation;

namespace {

// objects whose lifetime and value are tracked; K tells the alternatives apart
int live_objects[4];
constexpr unsigned long moved_from = 0xdead;

template <int K>
struct Tracked {
    const void* self; // == this while the object is alive
    unsigned long value;

    explicit Tracked(unsigned long v) noexcept
        : self(this)
        , value(v)
    {
        ++live_objects[K];
    }
    Tracked() noexcept
        : Tracked(0)
    {
    }
    Tracked(const Tracked& o) noexcept
        : self(this)
        , value(o.value)
    {
        vf_check(o.self == &o, "only living objects are copied");
        vf_check(&o != this, "no object is constructed from itself");
        ++live_objects[K];
    }
    Tracked(Tracked&& o) noexcept
        : self(this)
        , value(o.value)
    {
        vf_check(o.self == &o, "only living objects are moved");
        vf_check(&o != this, "no object is constructed from itself");
        o.value = moved_from;
        ++live_objects[K];
    }
    Tracked& operator=(const Tracked& o) noexcept
    {
        vf_check(self == this && o.self == &o, "assignment is between living objects");
        value = o.value;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        vf_check(self == this && o.self == &o, "assignment is between living objects");
        if (this != &o) {
            value = o.value;
            o.value = moved_from;
        }
        return *this;
    }
    ~Tracked()
    {
        vf_check(self == this, "only living objects are destroyed");
        self = nullptr;
        --live_objects[K];
    }
    friend bool operator==(const Tracked& a, const Tracked& b) noexcept
    {
        vf_check(a.self == &a && b.self == &b, "only living objects are compared");
        return a.value == b.value;
    }
};

using A = Tracked<0>;
using B = Tracked<1>;
using C = Tracked<2>;

void nothing_leaked()
{
    vf_check(live_objects[0] == 0 && live_objects[1] == 0 && live_objects[2] == 0, "every object is destroyed exactly once");
}

} // namespace

// ---- Result ------------------------------------------------------------------------------------------------------
namespace {

using R = Result<A, B>;

R any_result(bool ok, unsigned long v)
{
    return ok ? R { Success_Tag {}, A { v } } : R { Error_Tag {}, B { v } };
}

void holds(const R& r, bool ok, unsigned long v, const char* label)
{
    vf_check(r.has_value() == ok && bool(r) == ok, "the result is a success or an error as constructed");
    if (ok) {
        vf_check((*r).self == &*r && (*r).value == v && r->value == v && r.value().value == v, label);
    }
    else {
        vf_check(r.error().self == &r.error() && r.error().value == v, label);
    }
}

} // namespace

VF_HARNESS(result)
{
    const unsigned op = vf_choose("op", 9);
    const bool xk = vf_choose("x ok", 2), yk = vf_choose("y ok", 2);
    const auto xv = vf_any<unsigned long>("x"), yv = vf_any<unsigned long>("y");
    {
        R x = any_result(xk, xv), y = any_result(yk, yv);
        holds(x, xk, xv, "construction keeps the value");
        holds(y, yk, yv, "construction keeps the value");
        switch (op) {
        case 0: {
            const R z = x;
            holds(z, xk, xv, "a copy has the value of the source");
            holds(x, xk, xv, "copying leaves the source alone");
            break;
        }
        case 1: {
            const R z = std::move(x);
            holds(z, xk, xv, "moving transfers the value");
            holds(x, xk, moved_from, "the source is moved from");
            break;
        }
        case 2: {
            R& q = (x = y);
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, yk, yv, "copy assignment transfers the value");
            holds(y, yk, yv, "copy assignment leaves the source alone");
            break;
        }
        case 3: {
            R& q = (x = std::move(y));
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, yk, yv, "move assignment transfers the value");
            holds(y, yk, moved_from, "the source is moved from");
            break;
        }
        case 4: {
            const R& self = x;
            R& q = (x = self);
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, xk, xv, "self assignment has no effect");
            break;
        }
        case 5: {
            R& self = x;
            R& q = (x = std::move(self));
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, xk, xv, "self assignment has no effect");
            break;
        }
        case 6: {
            // implicit construction
            const R z { A { xv } }, u { B { yv } };
            const A a { xv };
            const B b { yv };
            const R z2 { a }, u2 { b };
            holds(z, true, xv, "a value makes a success");
            holds(u, false, yv, "an error makes an error");
            holds(z2, true, xv, "a value makes a success");
            holds(u2, false, yv, "an error makes an error");
            vf_check(a.value == xv && b.value == yv, "copying leaves the source alone");
            break;
        }
        case 7: {
            // access to temporaries moves
            if (xk) {
                const A a = *std::move(x);
                vf_check(a.value == xv, "a value can be moved out");
            }
            else {
                const B b = std::move(x).error();
                vf_check(b.value == xv, "an error can be moved out");
            }
            if (yk) {
                const A a = std::move(y).value();
                vf_check(a.value == yv, "a value can be moved out");
            }
            holds(x, xk, moved_from, "the source is moved from");
            break;
        }
        default: {
            // modification in place
            const unsigned long n = vf_any<unsigned long>("n");
            if (xk) {
                x->value = n;
                holds(x, true, n, "a value can be modified in place");
                (*x).value = n + 1;
                holds(x, true, n + 1, "a value can be modified in place");
                x.value().value = n + 2;
            }
            else {
                x.error().value = n + 2;
            }
            holds(x, xk, n + 2, "contents can be modified in place");
        }
        }
        vf_cover("result");
    }
    nothing_leaked();
}

namespace {

using RV = Result<void, B>;

void holds(const RV& r, bool ok, unsigned long v, const char* label)
{
    vf_check(r.has_value() == ok && bool(r) == ok, "the result is a success or an error as constructed");
    if (!ok) {
        vf_check(r.error().self == &r.error() && r.error().value == v, label);
    }
}

RV any_void_result(bool ok, unsigned long v)
{
    return ok ? RV {} : RV { B { v } };
}

} // namespace

VF_HARNESS(void_result)
{
    const unsigned op = vf_choose("op", 8);
    const bool xk = vf_choose("x ok", 2), yk = vf_choose("y ok", 2);
    const auto xv = vf_any<unsigned long>("x"), yv = vf_any<unsigned long>("y");
    {
        RV x = any_void_result(xk, xv), y = any_void_result(yk, yv);
        holds(x, xk, xv, "construction keeps the value");
        holds(y, yk, yv, "construction keeps the value");
        switch (op) {
        case 0: {
            const RV z = x;
            holds(z, xk, xv, "a copy has the value of the source");
            holds(x, xk, xv, "copying leaves the source alone");
            break;
        }
        case 1: {
            const RV z = std::move(x);
            holds(z, xk, xv, "moving transfers the value");
            holds(x, xk, moved_from, "the source is moved from");
            break;
        }
        case 2: {
            RV& q = (x = y);
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, yk, yv, "copy assignment transfers the value");
            holds(y, yk, yv, "copy assignment leaves the source alone");
            break;
        }
        case 3: {
            RV& q = (x = std::move(y));
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, yk, yv, "move assignment transfers the value");
            break;
        }
        case 4: {
            const RV& self = x;
            RV& q = (x = self);
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, xk, xv, "self assignment has no effect");
            break;
        }
        case 5: {
            RV& self = x;
            RV& q = (x = std::move(self));
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, xk, xv, "self assignment has no effect");
            break;
        }
        case 6: {
            const B b { yv };
            const RV u { b };
            holds(u, false, yv, "an error makes an error");
            vf_check(b.value == yv, "copying leaves the source alone");
            break;
        }
        default:
            if (!xk) {
                const B b = std::move(x).error();
                vf_check(b.value == xv, "an error can be moved out");
                x.error().value = yv;
                holds(x, false, yv, "contents can be modified in place");
            }
        }
        vf_cover("result");
    }
    nothing_leaked();
}

// ---- Variant -----------------------------------------------------------------------------------------------------
namespace {

template <typename V, int K, typename... Ts>
V make_variant(unsigned k, unsigned long v);

template <typename V, typename T, typename... Ts>
V make(unsigned k, unsigned long v)
{
    if constexpr (sizeof...(Ts) == 0) {
        return V { T { v } };
    }
    else {
        return k == 0 ? V { T { v } } : make<V, Ts...>(k - 1, v);
    }
}

template <typename V, typename T, int I>
void holds_one(V& x, unsigned k, unsigned long v, const char* label)
{
    const V& c = x;
    const bool here = k == I;
    vf_check(holds_alternative<T>(x) == here, "exactly the constructed alternative is held");
    vf_check((get_if<T>(&x) != nullptr) == here && (get_if<T>(&c) != nullptr) == here
                 && (get_if<I>(&x) != nullptr) == here && (get_if<I>(&c) != nullptr) == here,
             "get_if finds exactly the alternative that is held");
    if (here) {
        const T& o = get<T>(x);
        vf_check(o.self == &o && o.value == v, label);
        vf_check(&get<T>(c) == &o && &get<I>(x) == &o && &get<I>(c) == &o && get_if<T>(&x) == &o && get_if<T>(&c) == &o
                     && get_if<I>(&x) == &o && get_if<I>(&c) == &o,
                 "every access yields the same object");
    }
}

template <typename... Ts, int... I>
void holds_(Variant<Ts...>& x, unsigned k, unsigned long v, const char* label, std::integer_sequence<int, I...>)
{
    vf_check(x.index() == k, "the index is that of the alternative held");
    (holds_one<Variant<Ts...>, Ts, I>(x, k, v, label), ...);
    // visitation
    unsigned calls = 0;
    const int which = visit(
        [&]<typename T>(T& o) {
            ++calls;
            vf_check(o.self == &o && o.value == v, label);
            int r = -1;
            ((std::is_same_v<T, Ts> ? void(r = I) : void()), ...);
            return r;
        },
        x);
    vf_check(calls == 1 && which == int(k), "the visitor is called once, with the alternative held");
}

template <typename... Ts>
void holds(Variant<Ts...>& x, unsigned k, unsigned long v, const char* label)
{
    holds_(x, k, v, label, std::make_integer_sequence<int, sizeof...(Ts)>());
}

template <typename T, typename V>
void assign_alternative(V& x, unsigned k, unsigned i, unsigned long v)
{
    if (k == i) {
        T t { v };
        x = t;
        vf_check(t.value == v, "copying leaves the source alone");
        holds(x, k, v, "assigning a value replaces the contents");
        vf_check(x == t, "a variant equals its contents");
        x = T { v + 1 };
        holds(x, k, v + 1, "assigning a value replaces the contents");
        vf_check(!(x == t), "a variant differs from other contents");
        const T& ct = t;
        V y { ct };
        holds(y, k, v, "construction keeps the value");
    }
    else {
        const T t { v };
        vf_check((x == t) == false || holds_alternative<T>(x), "a variant only equals a value of the alternative held");
    }
}

template <typename... Ts>
void check_variant()
{
    using V = Variant<Ts...>;
    constexpr unsigned N = sizeof...(Ts);
    const unsigned op = vf_choose("op", 9);
    const unsigned xk = vf_choose("x alternative", N), yk = vf_choose("y alternative", N);
    const auto xv = vf_any<unsigned long>("x"), yv = vf_any<unsigned long>("y");
    {
        V x = make<V, Ts...>(xk, xv), y = make<V, Ts...>(yk, yv);
        holds(x, xk, xv, "construction keeps the value");
        holds(y, yk, yv, "construction keeps the value");
        switch (op) {
        case 0: {
            V z = x;
            holds(z, xk, xv, "a copy has the value of the source");
            holds(x, xk, xv, "copying leaves the source alone");
            break;
        }
        case 1: {
            V z = std::move(x);
            holds(z, xk, xv, "moving transfers the value");
            holds(x, xk, moved_from, "the source is moved from");
            break;
        }
        case 2: {
            V& q = (x = y);
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, yk, yv, "copy assignment transfers the value");
            holds(y, yk, yv, "copy assignment leaves the source alone");
            break;
        }
        case 3: {
            V& q = (x = std::move(y));
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, yk, yv, "move assignment transfers the value");
            holds(y, yk, moved_from, "the source is moved from");
            break;
        }
        case 4: {
            const V& self = x;
            V& q = (x = self);
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, xk, xv, "self assignment has no effect");
            break;
        }
        case 5: {
            V& self = x;
            V& q = (x = std::move(self));
            vf_check(&q == &x, "assignment returns its left operand");
            holds(x, xk, xv, "self assignment has no effect");
            break;
        }
        case 6: {
            unsigned i = 0;
            (assign_alternative<Ts>(x, yk, i++, yv), ...);
            break;
        }
        case 7:
            vf_check((x == y) == (xk == yk && xv == yv), "variants are equal if their alternatives and contents are");
            break;
        default: {
            V z;
            holds(z, 0, 0, "a default-constructed variant holds its first alternative");
            z = y;
            holds(z, yk, yv, "copy assignment transfers the value");
        }
        }
        vf_cover("variant");
    }
    nothing_leaked();
}

} // namespace

VF_HARNESS(variant2)
{
    check_variant<A, B>();
}

VF_HARNESS(variant3)
{
    check_variant<A, B, C>();
}

namespace {

// trivially copyable alternatives of different sizes
template <int K, typename T>
struct Plain {
    T value;
    friend bool operator==(const Plain&, const Plain&) = default;
};
using P0 = Plain<0, unsigned char>;
using P1 = Plain<1, unsigned long>;
using P2 = Plain<2, vf_u128>;
using PV = Variant<P0, P1, P2, Plain<3, unsigned>, Plain<4, unsigned>, Plain<5, unsigned>, Plain<6, unsigned>, Plain<7, unsigned>,
                   Plain<8, unsigned short>, Plain<9, unsigned long>>;

template <typename T>
void plain_holds(const PV& x, unsigned k, unsigned i, vf_u128 v)
{
    vf_check(holds_alternative<T>(x) == (k == i), "exactly the constructed alternative is held");
    vf_check((get_if<T>(&x) != nullptr) == (k == i), "get_if finds exactly the alternative that is held");
    if (k == i) {
        vf_check(vf_u128(get<T>(x).value) == vf_u128(decltype(T::value)(v)), "the value is kept");
    }
}

template <int K, typename T>
PV plain_make(Plain<K, T>, vf_u128 v)
{
    return PV { Plain<K, T> { T(v) } };
}

PV plain(unsigned k, vf_u128 v)
{
    switch (k) {
    case 0: return plain_make(P0 {}, v);
    case 1: return plain_make(P1 {}, v);
    case 2: return plain_make(P2 {}, v);
    case 3: return plain_make(Plain<3, unsigned> {}, v);
    case 4: return plain_make(Plain<4, unsigned> {}, v);
    case 5: return plain_make(Plain<5, unsigned> {}, v);
    case 6: return plain_make(Plain<6, unsigned> {}, v);
    case 7: return plain_make(Plain<7, unsigned> {}, v);
    case 8: return plain_make(Plain<8, unsigned short> {}, v);
    default: return plain_make(Plain<9, unsigned long> {}, v);
    }
}

vf_u128 truncated(unsigned k, vf_u128 v)
{
    return k == 0 ? (unsigned char)(v) : k == 1 || k == 9 ? (unsigned long)(v) : k == 2 ? v : k == 8 ? (unsigned short)(v) : unsigned(v);
}

void plain_check(PV& x, unsigned k, vf_u128 v)
{
    vf_check(x.index() == k, "the index is that of the alternative held");
    plain_holds<P0>(x, k, 0, v);
    plain_holds<P1>(x, k, 1, v);
    plain_holds<P2>(x, k, 2, v);
    plain_holds<Plain<3, unsigned>>(x, k, 3, v);
    plain_holds<Plain<4, unsigned>>(x, k, 4, v);
    plain_holds<Plain<5, unsigned>>(x, k, 5, v);
    plain_holds<Plain<6, unsigned>>(x, k, 6, v);
    plain_holds<Plain<7, unsigned>>(x, k, 7, v);
    plain_holds<Plain<8, unsigned short>>(x, k, 8, v);
    plain_holds<Plain<9, unsigned long>>(x, k, 9, v);
    int which = -1;
    visit(
        [&]<int K, typename T>(const Plain<K, T>& p) {
            which = K;
            vf_check(vf_u128(p.value) == truncated(k, v), "the value is kept");
        },
        x);
    vf_check(which == int(k), "the visitor is called with the alternative held");
}

} // namespace

VF_HARNESS(variant_trivial)
{
    const unsigned xk = vf_choose("x alternative", 10), yk = vf_choose("y alternative", 10);
    const auto xv = vf_any<vf_u128>("x"), yv = vf_any<vf_u128>("y");
    PV x = plain(xk, xv), y = plain(yk, yv);
    plain_check(x, xk, xv);
    vf_check((x == y) == (xk == yk && truncated(xk, xv) == truncated(yk, yv)),
             "variants are equal if their alternatives and contents are");
    x = y;
    plain_check(x, yk, yv);
    plain_check(y, yk, yv);
    PV z;
    plain_check(z, 0, 0);
    vf_cover("variant");
}

// ---- Tribool -----------------------------------------------------------------------------------------------------
namespace {

// 0 false, 1 maybe, 2 true
Tribool tri(unsigned k)
{
    return k == 0 ? Tribool::fawse : k == 1 ? Tribool::maybe : Tribool::twue;
}

} // namespace

VF_HARNESS(tribool)
{
    const unsigned x = vf_choose("x", 3), y = vf_choose("y", 3);
    const Tribool a = tri(x), b = tri(y);
    vf_check((a == b) == (x == y), "the three values are distinct");
    vf_check((a != b) == (x != y), "the three values are distinct");
    vf_check(Tribool(true) == Tribool::twue && Tribool(false) == Tribool::fawse, "bool converts to true and false");
    vf_check(!a == tri(2 - x), "negation swaps true and false, and keeps maybe");
    vf_check((a && b) == tri(x < y ? x : y), "conjunction is the minimum in the order false, maybe, true");
    vf_check((a || b) == tri(x > y ? x : y), "disjunction is the maximum in the order false, maybe, true");
    const bool unknown = x == 1 || y == 1;
    vf_check(equals(a, b) == tri(unknown ? 1 : x == y ? 2 : 0), "equality is unknown if an operand is");
    vf_check(not_equals(a, b) == tri(unknown ? 1 : x != y ? 2 : 0), "inequality is unknown if an operand is");
    vf_cover("tribool");
}
