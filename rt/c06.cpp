#include "large.hpp"
// ------------------------------------------------------------------ C06
static std::string cname(int c) { return c == C_NONE ? "NONE" : std::to_string(c); }
static void c06_pair(const T& a, const T& b)
{
    int want = compat(*a, *b), got = int(a->r().is_compatible(b->r()));
    REQUIRE(want == got, "is_compatible(" + a->str() + ", " + b->str() + ") is " + cname(got) + " instead of " + cname(want));
}
static void c06()
{
    add_case("primitive, enumerated and string pairs", [=]{
        std::vector<T> f; for(int k = BOOL; k <= STR16; ++k) { f.push_back(leaf(K(k))); f.push_back(alias(leaf(K(k)))); f.push_back(alias(alias(leaf(K(k))))); f.push_back(structt({{"m", leaf(K(k))}})); if(is_str(K(k))) { f.push_back(str(K(k), 3)); f.push_back(alias(str(K(k), 7))); } }
        for(auto& a : f) for(auto& b : f) { c06_pair(a, b); if(base(a).k != STRUCT && base(b).k != STRUCT) REQUIRE(a->r().is_compatible(b->r()) == b->r().is_compatible(a->r()), "is_compatible is not symmetric for " + a->str() + " and " + b->str()); }
        for(auto& a : f) for(auto& b : f)
        {
            if(a->k == STRUCT || b->k == STRUCT) continue;
            for(uint32_t x : {0u, 2u}) for(uint32_t y : {0u, 2u})
            { c06_pair(seq(a, x), seq(b, y)); c06_pair(arr(a, x + 1), arr(b, y + 1)); c06_pair(mapt(a, a, x), mapt(b, a, y)); c06_pair(mapt(a, a, x), mapt(a, b, y)); c06_pair(mapt(prim(U8), a, x), mapt(prim(U8), b, y)); }
            c06_pair(seq(a), a); c06_pair(a, seq(a)); c06_pair(seq(a), arr(a, 2)); c06_pair(arr(a, 2), mapt(a, a));
            c06_pair(structt({{"x", a}, {"y", b}}), structt({{"x", b}, {"y", a}})); c06_pair(structt({{"x", a}, {"y", b}}), structt({{"x", a}, {"z", b}, {"w", b}}));
        }
    });
    for(size_t c = 0; c < N(400, 4000); ++c) add_case("random types " + std::to_string(c), [=]{
        Rng r = rng(6, c); Gen g(r); T t = g.type(3); T z = g.type(3);
        REQUIRE(t->r().is_compatible(t->r()) == TypeConsistency::EQUALS, "a type is not EQUALS to itself: " + t->str());
        DynamicType::Ptr copy(t->r());
        REQUIRE(t->r().is_compatible(*copy) == TypeConsistency::EQUALS && copy->is_compatible(t->r()) == TypeConsistency::EQUALS, "a type is not EQUALS to a copy of it: " + t->str());
        c06_pair(t, z); c06_pair(z, t); c06_pair(alias(t), z); c06_pair(t, alias(alias(z)));
        REQUIRE(alias(t)->r().is_compatible(alias(alias(t))->r()) == TypeConsistency::EQUALS, "aliases");
        for(int i = 0; i < 6; ++i) { T u = relative(t, r, g); c06_pair(t, u); c06_pair(u, t); T w = relative(u, r, g); c06_pair(u, w); c06_pair(w, t); }
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c06(); large_cases("tn", false); }
