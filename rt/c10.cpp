#include "common.hpp"
// ------------------------------------------------------------------ C10
template<class C> static void c10_enum(Rng& r)
{
    EnumerationType<C> e("E"); std::vector<std::pair<std::string, uint64_t>> model; uint64_t next = 0; const uint64_t top = std::numeric_limits<C>::max();
    for(int i = 0; i < 14; ++i)
    {
        std::string n = (!model.empty() && r.coin(6)) ? model[r.below(model.size())].first : "N" + std::to_string(r.below(40));
        bool used = false; for(auto& p : model) used |= p.first == n;
        bool implicit = r.coin();
        static const uint64_t S[] = {0, 1, 2, 5, 100, 127, 128, 254, 255, 256, 32767, 65534, 65535, 65536, 2147483647ull, 4294967294ull, 4294967295ull};
        uint64_t v = implicit ? next : (r.coin() ? next + r.below(4) : S[r.below(sizeof S / sizeof *S)]);
        if(v > top && !implicit) continue;
        bool ok = !used && v >= next && v <= top;
        bool rej = rejects([&]{ if(implicit) e.add_enumerator(n); else e.add_enumerator(n, C(v)); });
        REQUIRE(rej == !ok, std::string("add_enumerator(") + n + (implicit ? "" : ", " + std::to_string(v)) + (rej ? ") rejected" : ") accepted") + " after value " + std::to_string(next));
        if(ok) { model.push_back({n, v}); next = v + 1; }
        REQUIRE(e.enumerators().size() == model.size(), "number of enumerators");
        for(auto& p : model) { REQUIRE(e.has_enumerator(p.first) && e.value(p.first) == C(p.second), "value(" + p.first + ")"); REQUIRE(e.enumerator(C(p.second)) == p.first && e.is_allowed_value(C(p.second)), "enumerator(value)"); }
    }
    REQUIRE(!e.has_enumerator("no") && rejects([&]{ e.value("no"); }), "unknown enumerator");
    if(model.empty()) return;
    DynamicData d(e); std::set<uint64_t> vals; for(auto& p : model) vals.insert(p.second);
    StructType st("S"); st.add_member("x", primitive_type<uint8_t>()); st.add_member("e", e); DynamicData ds(st); SequenceType sq(e); DynamicData dq(sq); dq.resize(2);
    C cur = C(model[0].second); d.value<C>(cur); ds["e"].value<C>(cur); dq[1].value<C>(cur);
    auto probe = [&](uint64_t x) {
        bool ok = vals.count(x) > 0;
        REQUIRE(e.is_allowed_value(C(x)) == ok, "is_allowed_value(" + std::to_string(x) + ")");
        REQUIRE(rejects([&]{ d.value<C>(C(x)); }) == !ok, "assigning " + std::to_string(x)); 
        REQUIRE(rejects([&]{ ds["e"] = C(x); }) == !ok && rejects([&]{ dq[1] = C(x); }) == !ok, "assigning to a member or element " + std::to_string(x));
        if(ok) cur = C(x);
        REQUIRE(d.value<C>() == cur && ds["e"].value<C>() == cur && dq[1].value<C>() == cur && C(d.template cast<C>()) == cur && dq[0].value<C>() == 0, "value after assigning " + std::to_string(x));
        if(!ok) REQUIRE(e.enumerator(C(x)) == "", "enumerator() of an undeclared value");
    };
    if(sizeof(C) == 1) for(uint64_t x = 0; x < 256; ++x) probe(x);
    else { for(auto x : vals) { probe(x); if(x) probe(x - 1); if(x < top) probe(x + 1); } for(int i = 0; i < 60; ++i) probe(r.u() & top); for(uint64_t x = 0; x < 300; ++x) probe(x); }
    REQUIRE(rejects([&]{ d.value<uint64_t>(0); }) && rejects([&]{ d.value<float>(0); }), "value of another width accepted");
    DynamicType::Ptr copy(e); REQUIRE(static_cast<const EnumerationType<C>&>(*copy).enumerators() == e.enumerators(), "copy of the type");
    EnumerationType<C> e2(static_cast<const EnumerationType<C>&>(d.type()).name()); (void)e2;
}
template<class C> static void c10_large(size_t n, bool reversed)
{
    EnumerationType<C> e("E"); auto nm = [&](size_t i) { return std::string(reversed ? "e" + std::to_string(100000 - i) : "e" + std::to_string(100000 + i)); };
    for(size_t i = 0; i < n; ++i) { if(i % 3) e.add_enumerator(nm(i)); else e.add_enumerator(nm(i), C(i)); }
    REQUIRE(e.enumerators().size() == n, "number of enumerators"); DynamicData d(e);
    for(size_t i = 0; i < n; ++i) { REQUIRE(e.has_enumerator(nm(i)) && e.value(nm(i)) == C(i) && e.enumerator(C(i)) == nm(i) && e.is_allowed_value(C(i)), "enumerator " + std::to_string(i) + " of " + std::to_string(n)); d = C(i); REQUIRE(d.value<C>() == C(i), "assigning " + std::to_string(i)); }
    if(n <= C(-1)) REQUIRE(rejects([&]{ d = C(n); }) && rejects([&]{ d = C(-1); }) == (n != size_t(C(-1)) + 1) && d.value<C>() == C(n - 1), "a value beyond the last enumerator"); else REQUIRE(rejects([&]{ e.add_enumerator("more"); }), "more enumerators than values");
}
static void c10() {
    for(int rev = 0; rev < 2; ++rev) { add_case("256 enumerators of 8 bits", [=]{ c10_large<uint8_t>(256, rev); }); add_case("300 enumerators of 16 bits", [=]{ c10_large<uint16_t>(300, rev); }); add_case("1000 enumerators of 32 bits", [=]{ c10_large<uint32_t>(1000, rev); }); }
    for(size_t c = 0; c < N(60, 600); ++c) add_case("declaration history " + std::to_string(c), [=]{ for(int i = 0; i < 12; ++i) { Rng r = rng(10, c * 100 + i); c10_enum<uint8_t>(r); c10_enum<uint16_t>(r); c10_enum<uint32_t>(r); } }); }
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c10(); }
