#include "large.hpp"
// ------------------------------------------------------------------ C01
static void c01()
{
    for(auto& e : elem_family()) for(uint32_t b : {0u, 1u, 2u, 3u, 7u, 40u})
        add_case("sequence of " + e.first + " bound " + std::to_string(b), [=]{
            for(size_t it = 0; it < N(3, 12); ++it)
            {
                Rng r = rng(1, b * 1000 + it);
                T t = seq(e.second, b);
                V v; DynamicData d(t->r()); bool str_elem = e.second->k == STR;
                for(int op = 0; op < int(N(60, 200)); ++op)
                {
                    size_t n = v.kids.size();
                    int what = int(r.below(8));
                    if(what <= 2)
                    {
                        V nv = vrandom(*e.second, r, 2);
                        if(b && n >= b) { DynamicData x = rmake(*e.second, nv); REQUIRE(rejects([&]{ d.push(x); }), "push over the bound accepted"); }
                        else if(str_elem && r.coin()) { if(base(e.second).bound == 0 || true) { d.push<std::string>(s8(nv)); } v.kids.push_back(nv); }
                        else { DynamicData x = rmake(*e.second, nv); d.push(x); v.kids.push_back(nv); }
                    }
                    else if(what == 3 && n && (!b || n < b)) { size_t i = r.below(n); V c = v.kids[i]; d.push(d[i]); v.kids.push_back(c); }
                    else if(what == 4) { size_t m = r.coin() ? r.below(n + 1) : n + r.below(5); if(b && m > b) m = b; d.resize(m); while(v.kids.size() < m) v.kids.push_back(vdefault(*e.second)); }
                    else if(what == 5 && n) { size_t i = r.below(n); mutate(d[i], *e.second, v.kids[i], r); }
                    else if(what == 6 && r.coin(4)) { DynamicData c(d); rexpect(c, *t, v, "copy"); if(r.coin()) d = c; }
                    REQUIRE(d.size() == v.kids.size(), "size() is " + std::to_string(d.size()) + " instead of " + std::to_string(v.kids.size()));
                    if(op % 5 == 0) rexpect(d, *t, v, "after operation " + std::to_string(op));
                    if(n) { REQUIRE(rejects([&]{ d[v.kids.size()]; }), "element at size() accepted"); }
                }
                rexpect(d, *t, v, "at the end");
            }
        });
    add_case("large growth", [=]{
        T t = seq(structt({{"a", prim(I8)}, {"s", str(STR)}}));
        DynamicData d(t->r()); V v;
        for(int i = 0; i < int(N(3000, 20000)); ++i) { DynamicData x(t->elem->r()); x["a"].value<int8_t>(int8_t(i)); x["s"].value<std::string>(std::to_string(i)); d.push(x); }
        for(int i = 0; i < int(d.size()); ++i) REQUIRE(d[i]["a"].value<int8_t>() == int8_t(i) && d[i]["s"].value<std::string>() == std::to_string(i), "element " + std::to_string(i) + " lost");
        T p = seq(prim(U32)); DynamicData q(p->r());
        for(uint32_t i = 0; i < 70000; ++i) q.push(i);
        for(uint32_t i = 0; i < 70000; ++i) REQUIRE(q[i].value<uint32_t>() == i, "element " + std::to_string(i) + " lost");
        q.resize(100000); REQUIRE(q.size() == 100000 && q[99999].value<uint32_t>() == 0 && q[69999].value<uint32_t>() == 69999, "resize");
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c01(); large_cases("s", false); }
