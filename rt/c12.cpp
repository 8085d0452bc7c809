#include "large.hpp"
// ------------------------------------------------------------------ C12
// Every operation against every kind whose precondition it violates; the data must be unchanged.
static void c12_data(const T& t, Rng& r)
{
    const TD& b = base(t); V v = vrandom(*t, r); DynamicData d = rmake(*t, v);
    bool agg = b.k == STRUCT || b.k == UNION, coll = b.k == ARR || b.k == SEQ || b.k == MAP || is_str(b.k), en = is_enum(b.k);
    auto rej = [&](const std::string& what, std::function<void()> f) { REQUIRE(rejects(f), what + " is accepted on " + t->str()); rexpect(d, *t, v, "after the rejected " + what); };
    if(!agg) { rej("operator[name]", [&]{ d["m0"]; }); rej("const operator[name]", [&]{ static_cast<const R&>(d)["m0"]; }); rej("items()", [&]{ d.items(); }); }
    else { rej("operator[unknown name]", [&]{ d["no such member"]; }); rej("const operator[unknown name]", [&]{ static_cast<const R&>(d)["no such member"]; }); rej("get_member(unknown)", [&]{ d.get_member("no such member"); }); }
    if(!agg && !coll) { rej("operator[index]", [&]{ d[0]; }); rej("size()", [&]{ d.size(); }); rej("bounds()", [&]{ d.bounds(); }); }
    if(agg) rej("bounds()", [&]{ d.bounds(); });
    if(!coll) { rej("begin()", [&]{ d.begin(); }); rej("end()", [&]{ d.end(); }); }
    if(b.k == ARR || b.k == SEQ) { rej("index == size", [&]{ d[v.kids.size()]; }); rej("const index == size", [&]{ static_cast<const R&>(d)[v.kids.size()]; }); rej("index -1", [&]{ d[-1]; }); rej("index 2^32", [&]{ d[size_t(1) << 32]; }); }
    if(b.k == STRUCT) { rej("member index == size", [&]{ d[b.mem.size()]; }); rej("member index -1", [&]{ d[-1]; }); }
    if(b.k == MAP) { rej("index on a map", [&]{ d[0]; }); DynamicData wrong{SequenceType(primitive_type<long double>())}; rej("key of another type", [&]{ d[wrong]; }); rej("at(key of another type)", [&]{ d.at(wrong); }); rej("has_key(other type)", [&]{ d.has_key(wrong); }); rej("insert(other type)", [&]{ d.insert(wrong); }); }
    else { DynamicData k = DynamicData(primitive_type<uint64_t>()); rej("operator[key]", [&]{ d[static_cast<R>(k)]; }); rej("at()", [&]{ d.at(k); }); rej("has_key()", [&]{ d.has_key(k); }); rej("insert()", [&]{ d.insert(k); }); }
    if(b.k != SEQ) { DynamicData x(primitive_type<uint64_t>()); rej("push(data)", [&]{ d.push(x); }); rej("push(value)", [&]{ d.push<uint64_t>(1); }); rej("resize()", [&]{ d.resize(1); }); }
    else { DynamicData wrong{SequenceType(primitive_type<long double>(), 77)}; rej("push of another type", [&]{ d.push(wrong); }); if(base(b.elem).k != F128) rej("push of a value of another type", [&]{ d.push<long double>(1); }); if(base(b.elem).k != WSTR) rej("push of a string of another type", [&]{ d.push<std::wstring>(L"x"); }); if(b.bound) rej("resize over the bound", [&]{ d.resize(b.bound + 1); }); rej("resize beyond 32 bits", [&]{ d.resize((size_t(1) << 32) + 1); }); }
    if(b.k != UNION) { rej("d()", [&]{ static_cast<const R&>(d).d(); }); rej("d(value)", [&]{ d.d(int64_t(0)); }); rej("current_case()", [&]{ d.current_case(); }); }
    else { rej("index on a union", [&]{ d[0]; }); rej("operator[discriminator]", [&]{ d["discriminator"]; }); }
    // value<T>
    for(int k = BOOL; k <= WC; ++k) if(b.k != K(k) && !en) by_prim(K(k), [&](auto z) { using C = decltype(z); rej("value<other>()", [&]{ static_cast<const R&>(d).template value<C>(); }); rej("value(other)", [&]{ d.template value<C>(C(1)); }); rej("as value", [&]{ d = C(1); }); return 0; });
    if(en) for(int k = BOOL; k <= WC; ++k) by_prim(K(k), [&](auto z) { using C = decltype(z); if(int(sizeof(C)) != ksize(b.k)) { rej("value<width>()", [&]{ static_cast<const R&>(d).template value<C>(); }); rej("value(width)", [&]{ d.template value<C>(C(1)); }); } return 0; });
    if(b.k != STR) { rej("value<string>()", [&]{ static_cast<const R&>(d).value<std::string>(); }); rej("value(string)", [&]{ d.value<std::string>("x"); }); }
    if(b.k != WSTR) { rej("value(wstring)", [&]{ d.value<std::wstring>(L"x"); }); rej("value<wstring>()", [&]{ static_cast<const R&>(d).value<std::wstring>(); }); }
    if(b.k != STR16) { rej("value(u16string)", [&]{ d.value<std::u16string>(u"x"); }); rej("value<u16string>()", [&]{ static_cast<const R&>(d).value<std::u16string>(); }); }
    if(!is_prim(b.k) && !en) rej("cast<int>()", [&]{ d.cast<int32_t>(); });
    if(b.k != ARR && b.k != SEQ && !coll) rej("as_vector()", [&]{ d.as_vector<int32_t>(); });
    // assignment and conversion between incompatible types
    Gen g(r); T o = g.type(2); DynamicData x = rmake(*o, vrandom(*o, r));
    if(compat(*t, *o) != 0) { rej("assignment of another type", [&]{ d = x; }); rej("assignment of a reference of another type", [&]{ d = x.cref(); }); rej("assignment through a reference", [&]{ d.ref() = x.ref(); }); }
    if(compat(*t, *o) == C_NONE) rej("conversion from an incompatible type", [&]{ DynamicData y(x, t->r()); });
    if(b.k == MAP) { V kv = vrandom(*b.key, r, 2); bool has = false; for(size_t j = 0; j < v.kids.size(); j += 2) has |= veq(*b.key, v.kids[j], kv); if(!has) { DynamicData k = rmake(*b.key, kv); rej("at(missing key)", [&]{ d.at(k); }); rej("const at(missing key)", [&]{ static_cast<const R&>(d).at(k); }); if(b.bound && v.kids.size() / 2 >= b.bound) rej("operator[key] over the bound", [&]{ d[k]; }); } }
    if(b.k == SEQ && b.bound && v.kids.size() >= b.bound) { DynamicData e(b.elem->r()); rej("push over the bound", [&]{ d.push(e); }); }
}
static void c12()
{
    for(auto& e : elem_family()) add_case("operations on " + e.first, [=]{ for(size_t i = 0; i < N(3, 20); ++i) { Rng r = rng(12, i); c12_data(e.second, r); c12_data(seq(e.second), r); c12_data(seq(e.second, 3), r); c12_data(mapt(prim(U64), e.second, 3), r); c12_data(arr(e.second, 3), r); c12_data(structt({{"p", prim(I8)}, {"m", e.second}}), r); c12_data(uniont(prim(I16), {{"m", e.second, {5}}, {"n", prim(I8), {-6}}}), r); } });
    for(size_t c = 0; c < N(120, 1200); ++c) add_case("random type " + std::to_string(c), [=]{ Rng r = rng(122, c); Gen g(r); for(int i = 0; i < 3; ++i) { T t = g.type(2); c12_data(t, r); } });
    add_case("type building", [=]{
        StructType s("S"); s.add_member("a", primitive_type<int32_t>()); s.add_member("b", StringType()); size_t ms = s.memory_size();
        auto same = [&](const std::string& w) { REQUIRE(s.members().size() == 2 && s.memory_size() == ms && s.member(0).name() == "a" && s.member(1).name() == "b" && s.member("b").offset() == 4, "the type changed after " + w); };
        REQUIRE(rejects([&]{ s.add_member("a", primitive_type<int64_t>()); }), "repeated member name accepted"); same("repeated member");
        REQUIRE(rejects([&]{ s.add_member(Member("b", primitive_type<int64_t>())); }), "repeated member accepted"); same("repeated member");
        REQUIRE(rejects([&]{ s.member(2); }) && rejects([&]{ s.member("c"); }) && rejects([&]{ s.parent(); }), "unknown member accepted"); same("unknown member");
        StructType child("C", &s); REQUIRE(rejects([&]{ child.add_member("a", primitive_type<int8_t>()); }), "name of an inherited member accepted"); REQUIRE(child.members().size() == 2 && child.memory_size() == ms, "child changed");
        EnumerationType<uint32_t> e("E"); e.add_enumerator("A", 5); REQUIRE(rejects([&]{ e.add_enumerator("A", 6); }) && rejects([&]{ e.add_enumerator("B", 5); }) && rejects([&]{ e.add_enumerator("B", 4); }), "enumerator accepted"); REQUIRE(e.enumerators().size() == 1, "enumeration changed"); e.add_enumerator("B"); REQUIRE(e.value("B") == 6, "next value after rejected enumerators");
        REQUIRE(rejects([&]{ UnionType u("U", primitive_type<float>()); }) && rejects([&]{ UnionType u("U", StringType()); }) && rejects([&]{ UnionType u("U", s); }), "discriminator accepted");
        for(int k = 0; k < 2; ++k)
        {
            UnionType u("U", k ? static_cast<const DynamicType&>(e) : primitive_type<int8_t>()); u.add_case_member<int64_t>({5}, Member("a", StringType()));
            auto same_u = [&](const std::string& w) { REQUIRE(u.members().size() == 2 && u.get_labels("a") == std::vector<int64_t>{5} && !u.has_member("z") && u.get_default().empty() && u.memory_size() == sizeof(std::string) + (k ? 4 : 1), "the union changed after " + w); };
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({5}, Member("z", primitive_type<int8_t>())); }), "used label"); same_u("used label");
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({6, 5}, Member("z", primitive_type<int8_t>())); }), "used label"); same_u("used second label");
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({6, 5}, Member("z", primitive_type<int8_t>()), true); }), "used label"); same_u("used second label, default");
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({6}, Member("a", primitive_type<int8_t>())); }), "used name"); same_u("used name");
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({6}, Member("a", primitive_type<int8_t>()), true); }), "used name"); same_u("used name, default");
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({6}, Member("discriminator", primitive_type<int8_t>())); }), "reserved name"); same_u("reserved name");
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({}, Member("z", primitive_type<int8_t>())); }), "no labels"); same_u("no labels");
            if(k) { REQUIRE(rejects([&]{ u.add_case_member<int64_t>({77}, Member("z", primitive_type<int8_t>())); }), "undeclared value as label"); same_u("undeclared label"); }
            else { REQUIRE(rejects([&]{ u.add_case_member<int64_t>({127}, Member("z", primitive_type<int8_t>())); }) && rejects([&]{ u.add_case_member<int64_t>({126}, Member("z", primitive_type<int8_t>())); }), "reserved label"); same_u("reserved label"); }
            u.add_case_member<int64_t>({6}, Member("y", primitive_type<int8_t>()), true); REQUIRE(rejects([&]{ u.add_case_member<int64_t>({}, Member("z", primitive_type<int8_t>()), true); }), "second default"); REQUIRE(u.get_default() == "y" && !u.has_member("z"), "default changed");
        }
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c12(); large_cases("tu", false); }
