#pragma once
// Bounded stand-ins and replay drivers, one suite per property. Every oracle is the model of model.hpp / C++ itself.
#include "model.hpp"
[[maybe_unused]] static uint64_t SEED; static bool TH;
static uint64_t mixs(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xBF58476D1CE4E5B9ull; x ^= x >> 31; return x; }
[[maybe_unused]] static Rng rng(uint64_t tag, uint64_t i) { return Rng(mixs(mixs(SEED, tag), i)); }
[[maybe_unused]] static size_t N(size_t quick, size_t thorough) { return TH ? thorough : quick; }
// Runs f and demands that the number of live allocations is unchanged afterwards (after a warm up run of statics)
template<class F> void noleak(const std::string& what, F f)
{
    for(int k = BOOL; k <= WC; ++k) prim(K(k));
    f(); // warm up of the function-local statics
    long before = xt_live;
    f();
    long after = xt_live;
    REQUIRE(after == before, what + ": " + std::to_string(after - before) + " allocations are still live after all data are gone");
}
[[maybe_unused]] static std::vector<std::pair<std::string, T>> elem_family()
{
    std::vector<std::pair<std::string, T>> f;
    for(int k = BOOL; k <= STR16; ++k) f.push_back({KN[k], leaf(K(k))});
    f.push_back({"str5", str(STR, 5)});
    f.push_back({"arr3_i16", arr(prim(I16), 3)});
    f.push_back({"arr2_str", arr(str(STR), 2)});
    f.push_back({"seq_i32", seq(prim(I32))});
    f.push_back({"seq3_str", seq(str(STR), 3)});
    f.push_back({"map_u64_str", mapt(prim(U64), str(STR))});
    f.push_back({"struct_i8_str_i64", structt({{"a", prim(I8)}, {"b", str(STR)}, {"c", prim(I64)}})});
    f.push_back({"struct_i8_i32", structt({{"a", prim(I8)}, {"b", prim(I32)}})});
    f.push_back({"alias_str", alias(str(STR))});
    f.push_back({"alias_i16", alias(prim(I16))});
    f.push_back({"union", uniont(prim(I32), {{"x", prim(I16), {1, 2}}, {"s", str(STR), {3}}, {"q", seq(str(STR)), {4}, true}})});
    f.push_back({"union_nodef", uniont(prim(U8), {{"s", str(STR), {1}}, {"i", prim(I64), {2, 3}}})});
    return f;
}
[[maybe_unused]] static void hist(const T& t, Rng& r, int ops, bool checkeach)
{
    V v = vdefault(*t);
    DynamicData d(t->r());
    rexpect(d, *t, v, "freshly created data");
    for(int i = 0; i < ops; ++i)
    {
        xt_case = "op " + std::to_string(i);
        mutate(d.ref(), *t, v, r);
        if(checkeach || i + 1 == ops) rexpect(d, *t, v, "after operation " + std::to_string(i));
    }
}
[[maybe_unused]] static void c05_pair(const T& a, const T& b, Rng& r)     // data of type b converted to type a
{
    if(compat(*a, *b) == C_NONE) return;
    V v = vrandom(*b, r);
    if(!conv_defined(*a, *b, v)) return;
    DynamicData src = rmake(*b, v);
    if(!maps_convertible(*a, *b)) return;
    DynamicData dst(src, a->r());
    V got = rread(dst, *a);
    REQUIRE(conv_matches(*a, *b, v, got), "converting " + show(*b, v) + " (" + b->str() + ") to " + a->str() + " gives " + show(*a, got));
    rexpect(src, *b, v, "source of a conversion");
    V got2 = got; mutate(dst.ref(), *a, got2, r); rexpect(dst, *a, got2, "converted data after a change"); rexpect(src, *b, v, "source after changing the converted data");
}
template<class C> [[maybe_unused]] static std::vector<C> op_values(Rng& r)
{
    std::vector<C> v;
    if constexpr(std::is_same<C, bool>::value) { v = {false, true}; }
    else if constexpr(std::is_floating_point<C>::value)
    {
        v = {C(0), C(-0.0), C(1), C(-1), C(1.5), C(1e10), C(-3.25), std::numeric_limits<C>::max(), std::numeric_limits<C>::lowest(), std::numeric_limits<C>::min(), std::numeric_limits<C>::infinity(), std::numeric_limits<C>::quiet_NaN()};
        for(int i = 0; i < 6; ++i) v.push_back(C((long double)(int64_t(r.u())) / 1024.0L));
    }
    else
    {
        for(int64_t x : {int64_t(0), int64_t(1), int64_t(2), int64_t(3), int64_t(5), int64_t(7), int64_t(8), int64_t(100), int64_t(-1), int64_t(-2), int64_t(-100), int64_t(31), int64_t(63), int64_t(16), int64_t(126), int64_t(127), int64_t(-128)}) v.push_back(C(x));
        v.push_back(std::numeric_limits<C>::max()); v.push_back(std::numeric_limits<C>::min()); v.push_back(C(std::numeric_limits<C>::max() / 2 + 1));
        for(int i = 0; i < 8; ++i) v.push_back(C(r.u()));
    }
    return v;
}
template<class C> [[maybe_unused]] static bool same_bits(C a, C b) { if constexpr(std::is_floating_point<C>::value) return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
template<class C> [[maybe_unused]] static std::string num(C a) { char b[80]; snprintf(b, 80, "%Lg", (long double)a); return b; }
