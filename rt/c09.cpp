#include "large.hpp"
// ------------------------------------------------------------------ C09
static void c09()
{
    for(auto& e : elem_family()) add_case("bounds with " + e.first, [=]{
        Rng r = rng(9, 0);
        for(uint32_t b = 0; b < N(11, 40); ++b)
        {
            T t = seq(e.second, b); DynamicData d(t->r()); V v;
            REQUIRE(d.bounds() == b, "bounds()");
            uint32_t n = b ? b : 9;
            for(uint32_t i = 0; i < n; ++i) { V nv = vrandom(*e.second, r, 2); DynamicData x = rmake(*e.second, nv); d.push(x); v.kids.push_back(nv); REQUIRE(d.size() == i + 1, "size while filling"); }
            rexpect(d, *t, v, "filled up to the bound");
            if(b) { DynamicData x(e.second->r()); REQUIRE(rejects([&]{ d.push(x); }), "push over the bound"); REQUIRE(rejects([&]{ d.push(d[0]); }), "push of an own element over the bound"); REQUIRE(rejects([&]{ d.resize(b + 1); }), "resize over the bound"); REQUIRE(rejects([&]{ d.resize(size_t(b) + (size_t(1) << 32)); }), "resize far over the bound"); rexpect(d, *t, v, "after rejected operations"); }
            else { REQUIRE(rejects([&]{ d.resize((size_t(1) << 32) + 5); }), "resize beyond any size a sequence can have"); rexpect(d, *t, v, "after a rejected resize"); }
            DynamicData f(t->r()); if(b) { f.resize(b); REQUIRE(f.size() == b, "resize to the bound"); }
            DynamicData c(d); if(b) { DynamicData x(e.second->r()); REQUIRE(rejects([&]{ c.push(x); }), "push over the bound of a copy"); } rexpect(c, *t, v, "copy");
            DynamicData mv(std::move(c)); if(b) { DynamicData x(e.second->r()); REQUIRE(rejects([&]{ mv.push(x); }), "push over the bound of a moved data"); }
            for(uint32_t b2 : {0u, 1u, 2u, b, b + 1, 5u})
            {
                T t2 = seq(e.second, b2); DynamicData k(d, t2->r()); V w = v; if(b2 && w.kids.size() > b2) w.kids.resize(b2);
                rexpect(k, *t2, w, "conversion from bound " + std::to_string(b) + " to " + std::to_string(b2));
                for(uint32_t i = uint32_t(w.kids.size()); !b2 ? i < 12 : i < b2; ++i) { DynamicData x(e.second->r()); k.push(x); w.kids.push_back(vdefault(*e.second)); }
                if(b2) { DynamicData x(e.second->r()); REQUIRE(rejects([&]{ k.push(x); }), "push over the bound of a converted data"); }
                rexpect(k, *t2, w, "converted data, filled");
            }
            T m = mapt(prim(U32), e.second, b); DynamicData dm(m->r()); V vm;
            for(uint32_t i = 0; i < n; ++i) { DynamicData k(primitive_type<uint32_t>()); k = i * 7919u; V kv; kv.n = i * 7919u; V nv = vrandom(*e.second, r, 2); DynamicData x = rmake(*e.second, nv); dm[k] = x; vm.kids.push_back(kv); vm.kids.push_back(nv); }
            rexpect(dm, *m, vm, "map filled up to the bound");
            if(b) { DynamicData k(primitive_type<uint32_t>()); k = 5u; REQUIRE(rejects([&]{ dm[k]; }), "map insertion over the bound"); DynamicData p(PairType(primitive_type<uint32_t>(), e.second->r())); p[0] = 6u; bool ok = false; rejects([&]{ ok = dm.insert(p); }); REQUIRE(!ok, "insert(pair) over the bound"); rexpect(dm, *m, vm, "map after rejected operations"); k = 0u; dm[k]; REQUIRE(dm.size() == b, "map size"); }
            for(uint32_t b2 : {0u, 1u, 3u, b + 1}) { T m2 = mapt(prim(U32), e.second, b2); DynamicData k(dm, m2->r()); REQUIRE(k.size() == (b2 ? std::min(b2, n) : n), "size of a converted map"); uint32_t s = uint32_t(k.size()); for(uint32_t i = s; b2 ? i < b2 : i < s + 4; ++i) { DynamicData q(primitive_type<uint32_t>()); q = 100000u + i; k[q]; } if(b2) { DynamicData q(primitive_type<uint32_t>()); q = 99u; REQUIRE(rejects([&]{ k[q]; }), "converted map grows over its bound"); REQUIRE(k.size() == b2, "size of a filled converted map"); } }
        }
    });
    add_case("strings", [=]{
        for(K k : {STR, WSTR, STR16}) for(uint32_t b = 0; b < 60; ++b) for(uint32_t n = 0; n < 70; n += (n < 4 ? 1 : 5))
        {
            T t = str(k, b); V v; for(uint32_t i = 0; i < n; ++i) v.s.push_back(U'a' + i % 26);
            V w = v; if(b && n > b) w.s.resize(b);
            DynamicData d(t->r()); rwrite(d.ref(), *t, v); rexpect(d, *t, w, "bounded string"); REQUIRE(d.size() == w.s.size(), "size()");
            DynamicData c(d); rexpect(c, *t, w, "copy of a bounded string");
            T u = str(k); DynamicData s = rmake(*u, v); rexpect(s, *u, v, "unbounded string"); DynamicData x(s, t->r()); rexpect(x, *t, w, "conversion into a bounded string");
            T q = seq(t), qu = seq(u); DynamicData ds(q->r()); if(k == STR) { ds.push<std::string>(s8(v)); } else if(k == WSTR) ds.push<std::wstring>(sw(v)); else ds.push<std::u16string>(s16(v)); rexpect(ds[0], *t, w, "bounded string pushed into a sequence");
            DynamicData dq(qu->r()); dq.push(s); DynamicData cq(dq, q->r()); rexpect(cq[0], *t, w, "conversion of a sequence of strings");
        }
    });
    for(size_t c = 0; c < N(60, 600); ++c) add_case("random conversions " + std::to_string(c), [=]{ Rng r = rng(99, c); Gen g(r); for(int i = 0; i < 6; ++i) { T e = g.type(2); T b = seq(e, uint32_t(r.below(6))); T a = relative(b, r, g, true); c05_pair(a, b, r); T st = structt({{"s", b}, {"x", str(STR, 4)}}); c05_pair(relative(st, r, g, true), st, r); } });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c09(); large_cases("s", false); }
