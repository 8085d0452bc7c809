#include "large.hpp"
// ------------------------------------------------------------------ C11
static void c11_hist(const T& t, Rng& r, int ops)
{
    std::vector<std::pair<std::unique_ptr<DynamicData>, V>> live;
    auto put = [&](DynamicData* d, const V& v) { live.push_back({std::unique_ptr<DynamicData>(d), v}); };
    put(new DynamicData(t->r()), vdefault(*t));
    for(int i = 0; i < ops; ++i)
    {
        size_t k = r.below(live.size());
        switch(r.below(9))
        {
            case 0: { V v = live[k].second; put(new DynamicData(*live[k].first), v); break; }
            case 1: { V v = live[k].second; put(new DynamicData(std::move(*live[k].first)), v); live.erase(live.begin() + long(k)); break; }
            case 2: { size_t j = r.below(live.size()); *live[j].first = *live[k].first; live[j].second = V(live[k].second); break; }
            case 3: { V v = live[k].second; put(new DynamicData(live[k].first->ref()), v); break; }
            case 4: if(live.size() > 1) live.erase(live.begin() + long(k)); break;
            case 5: { V v = vrandom(*t, r); put(new DynamicData(rmake(*t, v)), v); break; }
            default: mutate(live[k].first->ref(), *t, live[k].second, r);
        }
        if(live.size() > 5) live.erase(live.begin());
    }
    for(auto& p : live) rexpect(*p.first, *t, p.second, "at the end of the history");
}
static void c11()
{
    for(auto& e : elem_family()) for(int sh = 0; sh < 6; ++sh) add_case("life cycle of " + e.first + " in shape " + std::to_string(sh), [=]{
        for(size_t i = 0; i < N(3, 20); ++i) noleak("life cycle", [&]{ Rng r = rng(11, i * 10 + sh);
            T t = sh == 0 ? e.second : sh == 1 ? seq(e.second, i % 2 ? 3 : 0) : sh == 2 ? mapt(prim(U64), e.second, i % 2 ? 3 : 0) : sh == 3 ? arr(e.second, 3) : sh == 4 ? structt({{"a", e.second}, {"b", prim(I8)}, {"c", e.second}}, 1) : uniont(prim(I32), {{"a", e.second, {1, 2}}, {"b", str(STR), {3}}, {"c", prim(I8), {4}, true}});
            c11_hist(t, r, int(N(40, 120))); }); });
    for(size_t c = 0; c < N(200, 2000); ++c) add_case("random life cycle " + std::to_string(c), [=]{ noleak("life cycle", [&]{ Rng r = rng(111, c); Gen g(r); T t = g.type(3); c11_hist(t, r, 30); }); });
    for(size_t c = 0; c < N(60, 600); ++c) add_case("random conversions " + std::to_string(c), [=]{ noleak("conversions", [&]{ Rng r = rng(112, c); Gen g(r); T t = g.type(2); for(int i = 0; i < 4; ++i) { T u = relative(t, r, g, true); c05_pair(u, t, r); c05_pair(t, u, r); } }); });
    add_case("rejected operations", [=]{ noleak("rejected operations", [&]{
        StructType s("S"); s.add_member("q", SequenceType(StringType(), 2)); s.add_member("m", MapType(StringType(), StringType(), 2)); DynamicData d(s), o{StringType()};
        for(int i = 0; i < 5; ++i) { rejects([&]{ d["q"].push<std::string>("a string that is not small at all " + std::to_string(i)); }); rejects([&]{ DynamicData k{StringType()}; k = "another long string, to use the heap" + std::to_string(i); d["m"][k] = std::string("v"); }); rejects([&]{ d["zz"]; }); rejects([&]{ d = o; }); rejects([&]{ DynamicData x(o, s); }); rejects([&]{ d["q"][9]; }); rejects([&]{ d["q"].resize(7); }); }
    }); });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c11(); large_cases("samtun", true); }
