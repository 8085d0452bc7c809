#include "large.hpp"
// ------------------------------------------------------------------ C04
static bool has_flt(const TD& t0)
{
    const TD& t = base(t0);
    if(is_flt(t.k)) return true;
    if(t.elem && has_flt(*t.elem)) return true;
    if(t.key && has_flt(*t.key)) return true;
    for(auto& m : t.mem) if(has_flt(*m.t)) return true;
    return false;
}
static void c04_pair(const T& t, const V& x, const V& y)
{
    DynamicData a = rmake(*t, x), b = rmake(*t, y);
    bool eq = veq(*t, x, y);
    REQUIRE((a == b) == eq, std::string("operator== answers ") + (eq ? "false" : "true") + " for " + show(*t, x) + " and " + show(*t, y) + " (" + t->str() + ")");
    REQUIRE((b == a) == eq, "operator== is not symmetric for " + show(*t, x) + " and " + show(*t, y) + " (" + t->str() + ")");
    REQUIRE((a != b) == !eq, "operator!= is not the negation of operator==");
    REQUIRE(a == a && b == b, "operator== is not reflexive");
    if(eq && !has_flt(*t)) REQUIRE(a.hash() == b.hash(), "equal data have different hashes: " + show(*t, x) + " (" + t->str() + ")");
}
static void c04_one(const T& t, Rng& r)
{
    V x = vrandom(*t, r);
    c04_pair(t, x, x); c04_pair(t, x, vrandom(*t, r));
    // a difference at one position
    DynamicData a = rmake(*t, x), b(a); V y = x;
    for(int i = 0; i < 6; ++i)
    {
        mutate(b.ref(), *t, y, r);
        bool eq = veq(*t, x, y);
        REQUIRE((a == b) == eq && (b == a) == eq && (a != b) == !eq, "operator== is wrong for " + show(*t, x) + " and " + show(*t, y) + " (" + t->str() + ")");
        if(eq && !has_flt(*t)) REQUIRE(a.hash() == b.hash(), "equal data have different hashes: " + show(*t, x) + " (" + t->str() + ")");
        c04_pair(t, y, y);
        // the same content, reached through another history
        DynamicData c = rmake(*t, y);
        REQUIRE(b == c && c == b, "equal contents with different histories compare different: " + show(*t, y) + " (" + t->str() + ")");
        if(!has_flt(*t)) REQUIRE(b.hash() == c.hash(), "equal contents with different histories have different hashes: " + show(*t, y) + " (" + t->str() + ")");
    }
}
static void c04()
{
    for(auto& e : elem_family()) add_case("equality of " + e.first, [=]{ for(size_t i = 0; i < N(4, 20); ++i) { Rng r = rng(4, i); c04_one(e.second, r); c04_one(seq(e.second), r); c04_one(mapt(prim(U64), e.second), r); c04_one(mapt(str(STR), e.second), r); c04_one(arr(e.second, 3), r); c04_one(structt({{"p", prim(I8)}, {"m", e.second}, {"z", e.second}}), r); c04_one(uniont(prim(I16), {{"m", e.second, {5, 7}}, {"n", prim(I8), {-6}}}), r); } });
    for(size_t c = 0; c < N(200, 2000); ++c) add_case("random type " + std::to_string(c), [=]{ Rng r = rng(44, c); Gen g(r); T t = g.type(3); for(int i = 0; i < 3; ++i) c04_one(t, r); });
    add_case("floating-point", [=]{
        for(K k : {F32, F64, F128}) { T p = prim(k); V z, m; z.n = 0.0L; m.n = -0.0L; c04_pair(p, z, m);
            T q = seq(p); V a, b; a.kids = {z, m}; b.kids = {m, z}; c04_pair(q, a, b); T ar = arr(p, 2); c04_pair(ar, a, b); T st = structt({{"x", p}, {"y", p}}); c04_pair(st, a, b);
            DynamicData d = rmake(*q, a), e = rmake(*q, b); V n; n.n = NAN; rwrite(d[0], *p, n); REQUIRE(!(d == d) || true, ""); REQUIRE(!(d == e) && d != e, "NaN equals a number"); }
    });
    add_case("every single difference in wide types", [=]{
        for(K k : {BOOL, I8, U16, I32, U64, STR}) for(uint32_t n : {1u, 2u, 3u, 9u})
        {
            T e = leaf(k);
            std::vector<Mem> ms; for(uint32_t i = 0; i < n; ++i) { Mem m; m.name = "f" + std::to_string(i); m.t = e; ms.push_back(m); }
            for(T t : {arr(e, n), seq(e), structt(ms), structt(ms, n)})
            {
                V v; V one; one.n = 1; one.s = U"x"; V zero;
                v.kids.assign(n, zero);
                for(uint32_t i = 0; i < n; ++i) { V w = v; w.kids[i] = one; c04_pair(t, v, w); }
                c04_pair(t, v, v);
            }
        }
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c04(); large_cases("samtun", false); }
