#include "large.hpp"
// ------------------------------------------------------------------ C02
static void c02()
{
    std::vector<T> keys = {prim(U64), prim(I32), prim(U8), prim(C8), prim(BOOL), str(STR), str(STR, 8), enumt(E32, en_vals(E32)), structt({{"a", prim(U32)}, {"b", str(STR)}}), alias(prim(U16)), seq(prim(U16)), arr(prim(U16), 2), str(WSTR)};
    auto fam = elem_family();
    for(size_t k = 0; k < keys.size(); ++k) for(size_t e = 0; e < fam.size(); ++e)
    {
        if(k > 1 && k != 5 && e % 4 != k % 4) continue;
        add_case("map of " + keys[k]->str() + " to " + fam[e].first, [=]{
            for(uint32_t b : {0u, 1u, 4u, 20u}) for(size_t it = 0; it < N(2, 8); ++it)
            {
                Rng r = rng(2, b * 7919 + k * 101 + e * 13 + it);
                T t = mapt(keys[k], fam[e].second, b);
                V v; DynamicData d(t->r());
                for(int op = 0; op < int(N(50, 150)); ++op)
                {
                    mutate(d.ref(), *t, v, r);
                    REQUIRE(d.size() == v.kids.size() / 2, "size() is " + std::to_string(d.size()) + " instead of " + std::to_string(v.kids.size() / 2));
                    if(op % 4 == 0) rexpect(d, *t, v, "after operation " + std::to_string(op));
                }
                for(size_t i = 0; i < v.kids.size(); i += 2) { DynamicData kk = rmake(*t->key, v.kids[i]); REQUIRE(d.has_key(kk), "key lost"); rexpect(d.at(kk), *t->elem, v.kids[i + 1], "at()"); }
                rexpect(d, *t, v, "at the end");
            }
        });
    }
    add_case("insertion orders", [=]{
        std::vector<uint64_t> p = {0, 1, 2, 3, 4};
        do
        {
            MapType m(primitive_type<uint64_t>(), StringType()); DynamicData d(m);
            for(size_t i = 0; i < p.size(); ++i)
            {
                DynamicData k(primitive_type<uint64_t>()); k = p[i] * 977; d[k].value<std::string>(std::to_string(p[i]));
                for(size_t j = 0; j < p.size(); ++j)
                {
                    DynamicData q(primitive_type<uint64_t>()); q = p[j] * 977;
                    REQUIRE(d.has_key(q) == (j <= i), "has_key after inserting " + std::to_string(i + 1) + " keys");
                    if(j <= i) REQUIRE(d.at(q).value<std::string>() == std::to_string(p[j]), "value of another key");
                }
                REQUIRE(d.size() == i + 1, "size");
            }
        } while(std::next_permutation(p.begin(), p.end()));
    });
    add_case("large map", [=]{
        MapType m(primitive_type<uint32_t>(), primitive_type<uint32_t>()); DynamicData d(m);
        uint32_t n = uint32_t(N(1500, 6000));
        for(uint32_t i = 0; i < n; ++i) { DynamicData k(primitive_type<uint32_t>()); k = i * 2654435761u; d[k] = i; }
        REQUIRE(d.size() == n, "size");
        for(uint32_t i = 0; i < n; ++i) { DynamicData k(primitive_type<uint32_t>()); k = i * 2654435761u; REQUIRE(d.at(k).value<uint32_t>() == i, "value lost"); k = i * 2654435761u + 1; REQUIRE(!d.has_key(k), "absent key found"); }
    });
    add_case("own key and self insertion", [=]{
        MapType m{StringType(), StringType(), 0}; DynamicData d(m); StringType s;
        for(int i = 0; i < 40; ++i)
        {
            DynamicData k(s); k = "a key that is long enough " + std::to_string(i); d[k].value<std::string>("v" + std::to_string(i));
            // the value of the entry becomes a key
            DynamicData kv(s); kv = "v" + std::to_string(i);
            d[d.at(k)].value<std::string>("w");
            REQUIRE(d.has_key(kv) && d.at(kv).value<std::string>() == "w" && d.at(k).value<std::string>() == "v" + std::to_string(i), "self insertion");
        }
        REQUIRE(d.size() == 80, "size");
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c02(); large_cases("m", false); }
