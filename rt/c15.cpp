#include "common.hpp"
// ------------------------------------------------------------------ C15
template<class C> static void c15_value(C a, C other)
{
    T t = T(); (void)t;
    const PrimitiveType<C>& p = static_cast<const PrimitiveType<C>&>(primitive_type<C>());
    std::string at = std::string(" of ") + p.name() + " " + num(a);
    DynamicData d(p); REQUIRE(same_bits(d.value<C>(), C(0)), "a freshly created " + p.name() + " is not zero");
    d = a; REQUIRE(same_bits(d.value<C>(), a), "value()" + at); { C got = d; REQUIRE(same_bits(got, a), "implicit conversion" + at); }
    d.value<C>(other); REQUIRE(same_bits(d.value<C>(), other), "value(T)"); d.ref().value<C>(a); REQUIRE(same_bits(d.cref().value<C>(), a), "value() through references" + at);
    StructType s("S"); s.add_member("x", primitive_type<uint8_t>()); s.add_member("a", p); s.add_member("q", ArrayType(p, 3)); s.add_member("z", p);
    DynamicData e(s); e["a"] = a; e["q"][1] = a; e["z"] = other;
    REQUIRE(same_bits(e["a"].value<C>(), a) && same_bits(e[1].value<C>(), a) && same_bits(e["q"][1].value<C>(), a) && same_bits(e["z"].value<C>(), other) && same_bits(e["q"][0].value<C>(), C(0)) && same_bits(e["q"][2].value<C>(), C(0)), "member or element" + at);
    { auto v = e["q"].template as_vector<C>(); REQUIRE(v.size() == 3 && same_bits(C(v[1]), a) && same_bits(C(v[0]), C(0)), "as_vector()" + at); }
    DynamicData q{SequenceType(p)}; q.push<C>(a); q.push<C>(other); q.push<C>(a); { auto v = q.as_vector<C>(); REQUIRE(v.size() == 3 && same_bits(C(v[0]), a) && same_bits(C(v[1]), other) && same_bits(C(v[2]), a), "as_vector() of a sequence" + at); }
    e["a"] = other; REQUIRE(same_bits(e["a"].value<C>(), other) && same_bits(e["q"][1].value<C>(), a), "rewritten" + at);
    for(int k = BOOL; k <= WC; ++k) by_prim(K(k), [&](auto z) { using D = decltype(z);
        bool def = true;
        if constexpr(std::is_floating_point<C>::value && !std::is_floating_point<D>::value && !std::is_same<D, bool>::value) def = a == a && (long double)a > (long double)std::numeric_limits<D>::lowest() - 1 && (long double)a < (long double)std::numeric_limits<D>::max() + 1;
        if constexpr(std::is_floating_point<C>::value && std::is_floating_point<D>::value) def = a != a || std::isinf(a) || std::abs((long double)a) <= (long double)std::numeric_limits<D>::max();
        if(def) { D got = d.template cast<D>(); REQUIRE(same_bits(got, static_cast<D>(a)), "cast to " + std::string(KN[k]) + at + " gives " + num(got)); REQUIRE(same_bits(e["q"][1].template cast<D>(), static_cast<D>(a)), "cast of an element" + at); }
        return 0; });
}
static void c15()
{
    for(int k = BOOL; k <= WC; ++k) for(size_t c = 0; c < N(3, 30); ++c)
        add_case(std::string("values of ") + KN[k] + " " + std::to_string(c), [=]{ Rng r = rng(15, k * 100 + c); by_prim(K(k), [&](auto z) { using C = decltype(z); auto v = op_values<C>(r); for(size_t i = 0; i < v.size(); ++i) c15_value<C>(v[i], v[(i + 1) % v.size()]); if(sizeof(C) == 1 && k != BOOL) for(int x = 0; x < 256; ++x) c15_value<C>(C(x), C(x + 1)); return 0; }); });
    add_case("enumerated values", [=]{ for(K k : {E8, E16, E32}) { T t = enumt(k, en_vals(k)); by_scalar(k, [&](auto z) { using C = decltype(z); DynamicData d(t->r()); StructType s("S"); s.add_member("i", primitive_type<uint8_t>()); s.add_member("e", t->r()); DynamicData e(s); SequenceType st(t->r()); DynamicData q(st);
        REQUIRE(d.value<C>() == 0, "default");
        for(auto& p : en_vals(k)) { d = C(p.second); e["e"] = C(p.second); q.push(d); C got = d; REQUIRE(d.value<C>() == C(p.second) && got == C(p.second) && e["e"].template value<C>() == C(p.second) && q[q.size() - 1].template value<C>() == C(p.second), "enumerated value");
            for(int j = BOOL; j <= WC; ++j) by_prim(K(j), [&](auto y) { using D = decltype(y); REQUIRE(same_bits(d.template cast<D>(), static_cast<D>(C(p.second))), "cast of an enumerated value"); return 0; }); }
        return 0; }); } });
    for(size_t c = 0; c < N(40, 400); ++c) add_case("strings " + std::to_string(c), [=]{ Rng r = rng(152, c);
        for(int i = 0; i < 10; ++i)
        {
            auto mkstr = [&](auto z, int mask) { using C = decltype(z); std::basic_string<C> s; size_t n = r.coin(6) ? r.below(300) : r.below(40); for(size_t j = 0; j < n; ++j) s.push_back(C(r.u() & unsigned(mask))); return s; };
            auto go = [&](auto z, const DynamicType& ty, int mask) { using C = decltype(z); using S = std::basic_string<C>; S a = mkstr(C(), mask), b = mkstr(C(), mask);
                DynamicData d(ty); REQUIRE(d.template value<S>().empty(), "fresh string"); d.template value<S>(a); S got = d; REQUIRE(d.template value<S>() == a && got == a && d.size() == a.size(), "string"); d = b; REQUIRE(d.template value<S>() == b, "string assigned");
                StructType s("S"); s.add_member("i", primitive_type<uint8_t>()); s.add_member("s", ty); s.add_member("t", ty); DynamicData e(s); e["s"].template value<S>(a); e["t"] = b; REQUIRE(e["s"].template value<S>() == a && e["t"].template value<S>() == b && e[1].template value<S>() == a, "string member");
                DynamicData q{SequenceType(ty)}; q.template push<S>(a); q.template push<S>(b); q[0] = b; q[1].template value<S>(a); auto v = q.template as_vector<S>(); REQUIRE(v.size() == 2 && v[0] == b && v[1] == a && q[0].template value<S>() == b, "strings of a sequence");
                size_t n = 0; for(auto ch : d) { REQUIRE(ch.template value<C>() == b[n], "character"); ++n; } REQUIRE(n == b.size(), "characters"); };
            go(char(), StringType(), 0xff); go(wchar_t(), WStringType(), 0xffff); go(char16_t(), String16Type(), 0xffff);
        } });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c15(); }
