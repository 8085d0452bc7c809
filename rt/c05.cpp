#include "large.hpp"
// ------------------------------------------------------------------ C05
static void c05()
{
    std::vector<K> num; for(int k = BOOL; k <= E32; ++k) num.push_back(K(k));
    add_case("primitive pairs", [=]{
        Rng r = rng(5, 0);
        for(K x : num) for(K y : num) for(size_t i = 0; i < N(25, 200); ++i)
        {
            T a = leaf(x), b = leaf(y);
            if(is_enum(x)) { V v = vrandom(*b, r); if(!conv_defined(*prim(x == E8 ? U8 : x == E16 ? U16 : U32), *b, v)) continue;
                DynamicData s = rmake(*b, v), d(s, a->r()); V got = rread(d, *a); REQUIRE(veq(*a, got, conv(*a, *b, v)), "conversion from " + b->str() + " to " + a->str() + " of " + show(*b, v) + " gives " + show(*a, got)); continue; }
            c05_pair(a, b, r); if(i % 8 == 0) { c05_pair(arr(a, 3), arr(b, 2), r); c05_pair(arr(a, 2), arr(b, 3), r); c05_pair(seq(a, 2), seq(b), r); c05_pair(seq(a), seq(b, 5), r); c05_pair(structt({{"x", a}, {"y", a}}), structt({{"x", b}}), r); }
        }
    });
    for(auto& e : elem_family()) add_case("conversions of " + e.first, [=]{
        Rng r = rng(5, 1); Gen g(r);
        for(size_t i = 0; i < N(12, 80); ++i)
            for(T b : {e.second, seq(e.second), seq(e.second, 3), arr(e.second, 3), mapt(prim(U64), e.second), mapt(str(STR), e.second, 4), structt({{"p", prim(I8)}, {"m", e.second}, {"z", e.second}}), structt({{"m", e.second}}), uniont(prim(I16), {{"m", e.second, {5, 7}}, {"n", prim(I8), {-6}, true}})})
            { T a = relative(b, r, g, true); c05_pair(a, b, r); }
    });
    for(size_t c = 0; c < N(240, 2400); ++c) add_case("random types " + std::to_string(c), [=]{ Rng r = rng(55, c); Gen g(r); T t = g.type(3); for(int i = 0; i < 4; ++i) { T u = relative(t, r, g, true); c05_pair(u, t, r); c05_pair(t, u, r); } });
    for(size_t c = 0; c < N(60, 400); ++c) add_case("pairs on their own " + std::to_string(c), [=]{
        Rng r = rng(56, c); Gen g(r);
        for(int i = 0; i < 6; ++i)
        {
            T b1 = i % 2 ? g.type(1) : leaf(num[r.below(num.size())]), b2 = g.type(1), a1 = relative(b1, r, g, true), a2 = relative(b2, r, g, true);
            if(compat(*a1, *b1) == C_NONE || compat(*a2, *b2) == C_NONE || !maps_convertible(*a1, *b1) || !maps_convertible(*a2, *b2)) continue;
            V v1 = vrandom(*b1, r), v2 = vrandom(*b2, r);
            if(!conv_defined(*a1, *b1, v1) || !conv_defined(*a2, *b2, v2)) continue;
            PairType from(b1->r(), b2->r()), to(a1->r(), a2->r());
            DynamicData src(from); rwrite(src[size_t(0)], *b1, v1); rwrite(src[1], *b2, v2);
            DynamicData dst(src, to);
            REQUIRE(conv_matches(*a1, *b1, v1, rread(dst[size_t(0)], *a1)), "first of a converted pair of " + b1->str() + " and " + b2->str() + " to a pair of " + a1->str() + " and " + a2->str());
            REQUIRE(conv_matches(*a2, *b2, v2, rread(dst[1], *a2)), "second of a converted pair of " + b1->str() + " and " + b2->str() + " to a pair of " + a1->str() + " and " + a2->str());
        }
    });
    add_case("map truncation and refusal", [=]{
        Rng r = rng(5, 9);
        for(uint32_t x = 0; x < 7; ++x) for(uint32_t y = 0; y < 7; ++y) for(int i = 0; i < 6; ++i) for(K k : {U64, STR}) { c05_pair(mapt(leaf(k), str(STR), x), mapt(leaf(k), str(STR), y), r); c05_pair(seq(mapt(leaf(k), prim(I8), x)), seq(mapt(leaf(k), prim(I8), y)), r); }
        T a = mapt(prim(U32), prim(I32)), b = mapt(prim(U64), prim(I32)); DynamicData d(b->r());
        REQUIRE(rejects([&]{ DynamicData x(d, a->r()); }), "conversion between maps of different key types accepted");
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c05(); large_cases("samtun", false); }
