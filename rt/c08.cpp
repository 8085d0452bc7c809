#include "large.hpp"
// ------------------------------------------------------------------ C08
struct Cell { size_t lo, hi; std::string what; };
static void leaves(const R& d, const TD& t0, const std::string& path, std::vector<Cell>& out)
{
    const TD& t = base(t0);
    size_t at = d.instance_id();
    auto kid = [&](const R& k, const TD& kt, const std::string& n) {
        // a member inside the storage of its parent, except in sequences and maps, which own separate memory
        if(t.k == STRUCT || t.k == ARR || t.k == UNION) REQUIRE(k.instance_id() >= at && k.instance_id() + kt.r().memory_size() <= at + t.r().memory_size(), n + " is outside the storage of " + path + " (" + t.str() + ")");
        leaves(k, kt, n, out);
    };
    if(t.k == STRUCT) { for(auto& m : t.mem) kid(d[m.name], *m.t, path + "." + m.name); }
    else if(t.k == ARR) { for(size_t i = 0; i < d.size(); ++i) kid(d[i], *t.elem, path + "[" + std::to_string(i) + "]"); }
    else if(t.k == SEQ) { out.push_back({at, at + t.r().memory_size(), path}); for(size_t i = 0; i < d.size(); ++i) kid(d[i], *t.elem, path + "[" + std::to_string(i) + "]"); }
    else if(t.k == MAP) { out.push_back({at, at + t.r().memory_size(), path}); size_t i = 0; for(const R& p : d) { kid(p[0], *t.key, path + "<key " + std::to_string(i) + ">"); kid(p[1], *t.elem, path + "<val " + std::to_string(i) + ">"); ++i; } }
    else if(t.k == UNION)
    {
        R disc = d.d(); out.push_back({disc.instance_id(), disc.instance_id() + t.disc->r().memory_size(), path + ".d"});
        bool none = rejects([&]{ d.current_case(); });
        if(!none) { auto& m = d.current_case(); for(auto& x : t.mem) if(x.name == m.name()) kid(d[m.name()], *x.t, path + "." + m.name()); }
    }
    else { size_t sz = is_str(t.k) ? (t.k == STR ? sizeof(std::string) : t.k == WSTR ? sizeof(std::wstring) : sizeof(std::u16string)) : is_enum(t.k) ? size_t(ksize(t.k)) : by_prim(t.k, [](auto z) { return sizeof(z); });
        REQUIRE(t.r().memory_size() >= sz, path + ": the storage is smaller than its value"); out.push_back({at, at + sz, path}); }
}
static void c08_one(const T& t, Rng& r)
{
    V v = vrandom(*t, r); DynamicData d = rmake(*t, v);
    std::vector<Cell> cs; leaves(d, *t, "data", cs);
    std::sort(cs.begin(), cs.end(), [](const Cell& a, const Cell& b) { return a.lo < b.lo; });
    for(size_t i = 1; i < cs.size(); ++i) REQUIRE(cs[i - 1].hi <= cs[i].lo, cs[i - 1].what + " overlaps " + cs[i].what + " (" + t->str() + ")");
    for(int i = 0; i < 8; ++i) { mutate(d.ref(), *t, v, r); rexpect(d, *t, v, "after writing one part"); }
}
static void c08()
{
    for(auto& e : elem_family()) add_case("layout of " + e.first, [=]{ for(size_t i = 0; i < N(3, 20); ++i) { Rng r = rng(8, i); for(uint32_t n = 1; n < 8; ++n) { c08_one(arr(e.second, n), r); c08_one(arr(arr(e.second, n), 3), r);
        std::vector<Mem> ms; for(uint32_t k = 0; k < n; ++k) { Mem m; m.name = "m" + std::to_string(k); m.t = k % 2 ? e.second : leaf(K(r.below(STR16 + 1))); ms.push_back(m); } for(size_t p = 0; p <= n; ++p) c08_one(structt(ms, p), r); c08_one(seq(e.second), r); c08_one(mapt(prim(U16), e.second), r);
        for(auto& m : ms) m.labels = {int64_t(&m - &ms[0] + 3)}; c08_one(uniont(leaf(K(I8 + r.below(8))), ms), r); } } });
    for(size_t c = 0; c < N(250, 2500); ++c) add_case("random type " + std::to_string(c), [=]{ Rng r = rng(88, c); Gen g(r); T t = g.type(3); c08_one(t, r); });
    add_case("multi-dimensional arrays", [=]{
        Rng r = rng(8, 777);
        for(auto dims : std::vector<std::vector<uint32_t>>{{2}, {2, 3}, {3, 2}, {2, 3, 4}, {1, 1, 2}, {4, 1, 3}})
        {
            T e = prim(I16); T t = e; for(size_t i = dims.size(); i-- > 0;) t = arr(t, dims[i]);
            t->real = own(ArrayType(primitive_type<int16_t>(), dims)); T cur = t; (void)cur;
            c08_one(t, r);
        }
    });
    add_case("large dimensions", [=]{
        ArrayType a(ArrayType(primitive_type<uint8_t>(), 70000), 3); DynamicData d(a); for(uint32_t i = 0; i < 3; ++i) { d[i][69999].value<uint8_t>(uint8_t(i + 1)); d[i][0].value<uint8_t>(uint8_t(i + 9)); }
        for(uint32_t i = 0; i < 3; ++i) REQUIRE(d[i][69999].value<uint8_t>() == i + 1 && d[i][0].value<uint8_t>() == i + 9, "large array");
    });
    for(uint32_t n : {100u, 127u, 128u, 200u, 255u, 256u, 257u, 1000u, 32767u, 32768u, 40000u, 65533u, 65535u, 65536u, 65537u, 70000u, 131072u, 200001u}) for(int shape = 0; shape < 4; ++shape)
        add_case("aggregations with a member of " + std::to_string(n) + " elements, shape " + std::to_string(shape), [=]{
        Rng r = rng(88, n + shape);
        ArrayType big(primitive_type<uint8_t>(), n), big2(primitive_type<int16_t>(), n / 2 + 3);
        UnionType u("U", primitive_type<uint16_t>());
        if(shape & 1) { u.add_case_member<uint16_t>({1}, Member("small", primitive_type<uint32_t>())); u.add_case_member<uint16_t>({2}, Member("big", big)); u.add_case_member<uint16_t>({3}, Member("other", big2)); }
        else { u.add_case_member<uint16_t>({3}, Member("other", big2)); u.add_case_member<uint16_t>({2}, Member("big", big)); u.add_case_member<uint16_t>({1}, Member("small", primitive_type<uint32_t>())); }
        StructType s("S"); s.add_member("first", big); s.add_member("head", primitive_type<uint16_t>()); s.add_member("u", u); s.add_member("tail", primitive_type<uint32_t>()); s.add_member("last", big2); s.add_member("end", primitive_type<uint8_t>());
        size_t su = 2 + std::max(size_t(n), 2 * size_t(n / 2 + 3)); // payload of the biggest case member after the discriminator
        REQUIRE(u.memory_size() >= su, "the storage of the union is smaller than its biggest member");
        REQUIRE(s.memory_size() >= n + 2 + su + 4 + 2 * (n / 2 + 3) + 1, "the storage of the structure is smaller than its members");
        SequenceType q(s); MapType mp(primitive_type<uint16_t>(), u); ArrayType as(s, 2);
        DynamicData ds(q), dm(mp), da(as); DynamicData k7(primitive_type<uint16_t>()), k8(k7), k9(k7); k7 = uint16_t(7); k8 = uint16_t(8); k9 = uint16_t(9); ds.resize(2); dm[k7]; dm[k9];
        auto visit = [&](auto&& write) { for(auto* d : {&ds, &da}) for(size_t i = 0; i < 2; ++i) { auto e = (*d)[i]; write(e["first"], e["head"], e["u"], e["tail"], e["last"], e["end"], int(i)); } };
        auto check = [&](const char* when) { for(auto* d : {&ds, &da}) for(size_t i = 0; i < 2; ++i)
            {
                auto e = (*d)[i]; uint8_t k = uint8_t(i + 1);
                REQUIRE(e["first"][0].value<uint8_t>() == k && e["first"][n - 1].value<uint8_t>() == k + 10 && e["head"].value<uint16_t>() == 1000 + k, when);
                REQUIRE(e["u"].current_case().name() == (i ? "big" : "other"), when);
                if(i) REQUIRE(e["u"]["big"][0].value<uint8_t>() == 77 && e["u"]["big"][n - 1].value<uint8_t>() == 78, when); else REQUIRE(e["u"]["other"][0].value<int16_t>() == 771 && e["u"]["other"][n / 2 + 2].value<int16_t>() == 782, when);
                REQUIRE(e["tail"].value<uint32_t>() == 70000u + k && e["last"][0].value<int16_t>() == 300 + k && e["last"][n / 2 + 2].value<int16_t>() == 400 + k && e["end"].value<uint8_t>() == k, when);
            } };
        visit([&](auto first, auto head, auto u, auto tail, auto last, auto end, int i) {
            uint8_t k = uint8_t(i + 1); first[0].template value<uint8_t>(k); first[n - 1].template value<uint8_t>(k + 10); head.template value<uint16_t>(1000 + k);
            tail.template value<uint32_t>(70000u + k); last[0].template value<int16_t>(300 + k); last[n / 2 + 2].template value<int16_t>(400 + k); end.template value<uint8_t>(k);
            if(i) { u["big"][0].template value<uint8_t>(77); u["big"][n - 1].template value<uint8_t>(78); } else { u["other"][0].template value<int16_t>(771); u["other"][n / 2 + 2].template value<int16_t>(782); } });
        check("after writing the parts");
        visit([&](auto first, auto, auto u, auto, auto, auto, int i) { for(uint32_t j = 1; j + 1 < n; ++j) first[j].template value<uint8_t>(uint8_t(r.below(256))); if(i) for(uint32_t j = 1; j + 1 < n; ++j) u["big"][j].template value<uint8_t>(255); });
        check("after filling the arrays");
        dm[k7]["big"][n - 1].value<uint8_t>(5); dm[k9]["other"][n / 2 + 2].value<int16_t>(6); dm[k8]["small"].value<uint32_t>(12345);
        REQUIRE(dm[k7]["big"][n - 1].value<uint8_t>() == 5 && dm[k9]["other"][n / 2 + 2].value<int16_t>() == 6 && dm[k8]["small"].value<uint32_t>() == 12345 && dm.size() == 3, "values of a map of unions");
        DynamicData c(ds); REQUIRE(c == ds, "copy"); ds[1]["u"]["big"][n - 1].value<uint8_t>(1); REQUIRE(c[1]["u"]["big"][n - 1].value<uint8_t>() == 78 && c != ds, "independent copy");
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c08(); large_cases("tn", false); }
