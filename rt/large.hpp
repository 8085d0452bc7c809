#pragma once
// Collections beyond the widths of 8 and 16 bits indices and counters
#include "common.hpp"
static std::string LS(size_t i, bool z = true) { return z ? "element " + std::to_string(i) + " is long enough to live in the heap" : ""; }
struct LElem { std::string name; std::function<DynamicType::Ptr()> type; std::function<void(WritableDynamicDataRef, size_t)> put; std::function<bool(ReadableDynamicDataRef, size_t, bool)> is; };
static std::vector<LElem> large_elems()
{
    std::vector<LElem> v;
    v.push_back({"uint8", []{ return DynamicType::Ptr(primitive_type<uint8_t>()); }, [](WritableDynamicDataRef r, size_t i) { r.value<uint8_t>(uint8_t(i * 7 + i / 256)); }, [](ReadableDynamicDataRef r, size_t i, bool z) { return r.value<uint8_t>() == (z ? uint8_t(i * 7 + i / 256) : 0); }});
    v.push_back({"int64", []{ return DynamicType::Ptr(primitive_type<int64_t>()); }, [](WritableDynamicDataRef r, size_t i) { r.value<int64_t>(-int64_t(i) - 1); }, [](ReadableDynamicDataRef r, size_t i, bool z) { return r.value<int64_t>() == (z ? -int64_t(i) - 1 : 0); }});
    v.push_back({"string", []{ return DynamicType::Ptr(StringType()); }, [](WritableDynamicDataRef r, size_t i) { r.value<std::string>(LS(i)); }, [](ReadableDynamicDataRef r, size_t i, bool z) { return r.value<std::string>() == LS(i, z); }});
    v.push_back({"struct", []{ StructType s("E"); s.add_member("n", primitive_type<uint16_t>()); s.add_member("s", StringType()); return DynamicType::Ptr(s); },
        [](WritableDynamicDataRef r, size_t i) { r["n"].value<uint16_t>(uint16_t(i)); r["s"].value<std::string>(LS(i)); }, [](ReadableDynamicDataRef r, size_t i, bool z) { return r["n"].value<uint16_t>() == (z ? uint16_t(i) : 0) && r["s"].value<std::string>() == LS(i, z); }});
    v.push_back({"sequence", []{ return DynamicType::Ptr(SequenceType(primitive_type<uint16_t>())); }, [](WritableDynamicDataRef r, size_t i) { if(r.size() == 0) r.resize(1); r[0].value<uint16_t>(uint16_t(i)); }, [](ReadableDynamicDataRef r, size_t i, bool z) { return z ? r.size() == 1 && r[0].value<uint16_t>() == uint16_t(i) : r.size() == 0; }});
    return v;
}
template<class D> static void large_check(const D& d, const LElem& e, size_t written, size_t n, const std::string& when)
{
    REQUIRE(d.size() == n, when + ": size() is " + std::to_string(d.size()) + " instead of " + std::to_string(n));
    for(size_t i = 0; i < n; ++i) REQUIRE(e.is(d[i], i, i < written), when + ": element " + std::to_string(i) + " of " + std::to_string(n) + " does not hold its value");
}
static void large_sequence(const LElem& e, size_t n, bool bounded)
{
    DynamicType::Ptr et = e.type();
    SequenceType q(*et, bounded ? uint32_t(n) : 0);
    std::string at = "sequence of " + std::to_string(n) + " " + e.name;
    DynamicData d(q), x(*et);
    for(size_t i = 0; i < n; ++i) { e.put(x.ref(), i); d.push(x); }
    large_check(d, e, n, n, at);
    if(bounded) { REQUIRE(rejects([&]{ d.push(x); }) && rejects([&]{ d.resize(n + 1); }), at + ": grown over its bound"); large_check(d, e, n, n, at + " after a rejected growth"); }
    DynamicData c(d); large_check(c, e, n, n, at + " copied"); REQUIRE(c == d && c.hash() == d.hash(), at + ": a copy differs");
    for(size_t k : {n - 1, n / 2, size_t(0), n > 256 ? n - 257 : 0, n > 65536 ? n - 65537 : 0}) { DynamicData y(c); e.put(y[k], k + 1); REQUIRE(y != c && !(y == c), at + ": a difference in element " + std::to_string(k) + " is not seen"); large_check(c, e, n, n, at + " after changing a copy"); }
    DynamicData m(std::move(c)); large_check(m, e, n, n, at + " moved");
    DynamicData a(q); a = d; large_check(a, e, n, n, at + " assigned"); a = a; large_check(a, e, n, n, at + " self assigned");
    if(!bounded) { m.resize(n + 300); large_check(m, e, n, n + 300, at + " resized"); m.resize(n); large_check(m, e, n, n + 300, at + " resized to less"); }
    size_t visits = 0; bool order = true;
    d.for_each([&](const DynamicData::ReadableNode& node) { if(node.deep() == 1) { order = order && node.from_index() == visits && e.is(node.data(), visits, true); ++visits; } });
    REQUIRE(order && visits == n, at + ": for_each does not visit every element in order");
    size_t it = 0; order = true; for(auto&& r : d) { order = order && e.is(r, it, true); ++it; } REQUIRE(order && it == n, at + ": iteration does not visit every element in order");
    // conversions to another bound
    SequenceType smaller(*et, uint32_t(n - 1)), bigger(*et, uint32_t(n + 5));
    DynamicData s(d, smaller), b(d, bigger); large_check(s, e, n, n - 1, at + " converted to a smaller bound"); large_check(b, e, n, n, at + " converted to a bigger bound"); large_check(d, e, n, n, at + " after conversions");
}
static void large_array(const LElem& e, size_t n)
{
    DynamicType::Ptr et = e.type();
    ArrayType q(*et, uint32_t(n)); std::string at = "array of " + std::to_string(n) + " " + e.name;
    DynamicData d(q); large_check(d, e, 0, n, at + " created");
    for(size_t i = 0; i < n; ++i) e.put(d[i], i);
    large_check(d, e, n, n, at);
    DynamicData c(d); large_check(c, e, n, n, at + " copied"); REQUIRE(c == d && c.hash() == d.hash(), at + ": a copy differs");
    for(size_t k : {n - 1, n / 2, size_t(0), n > 256 ? n - 257 : 0, n > 65536 ? n - 65537 : 0}) { DynamicData y(c); e.put(y[k], k + 1); REQUIRE(y != c && !(y == c), at + ": a difference in element " + std::to_string(k) + " is not seen"); }
    DynamicData m(std::move(c)); large_check(m, e, n, n, at + " moved");
    DynamicData a(q); a = d; large_check(a, e, n, n, at + " assigned");
    ArrayType smaller(*et, uint32_t(n - 1)), bigger(*et, uint32_t(n + 300));
    DynamicData s(d, smaller), b(d, bigger); large_check(s, e, n, n - 1, at + " converted to a smaller dimension"); large_check(b, e, n, n + 300, at + " converted to a bigger dimension");
    size_t visits = 0; bool order = true;
    d.for_each([&](const DynamicData::ReadableNode& node) { if(node.deep() == 1) { order = order && node.from_index() == visits && e.is(node.data(), visits, true); ++visits; } });
    REQUIRE(order && visits == n, at + ": for_each does not visit every element in order");
}
static void large_map(const LElem& e, size_t n, bool strkey, bool down)
{
    DynamicType::Ptr et = e.type(); DynamicType::Ptr kt = strkey ? DynamicType::Ptr(StringType()) : DynamicType::Ptr(primitive_type<uint32_t>());
    MapType q(*kt, *et); std::string at = "map of " + std::to_string(n) + " " + e.name;
    auto key = [&](size_t i) { DynamicData k(*kt); if(strkey) k = LS(i); else k = uint32_t(i); return k; };
    auto check = [&](DynamicData& d, size_t lo, size_t hi, const std::string& when) { REQUIRE(d.size() == hi - lo, when + ": size() is " + std::to_string(d.size()) + " instead of " + std::to_string(hi - lo));
        for(size_t i = lo; i < hi; ++i) { DynamicData k = key(i); REQUIRE(d.has_key(k) && e.is(d.at(k), i, true), when + ": the entry of key " + std::to_string(i) + " is lost"); } };
    DynamicData d(q);
    for(size_t j = 0; j < n; ++j) { size_t i = down ? n - 1 - j : j; DynamicData k = key(i); e.put(d[k], i); if(j % 256 == 255) down ? check(d, i, n, at + " while it grows") : check(d, 0, i + 1, at + " while it grows"); }
    check(d, 0, n, at); REQUIRE(!d.has_key(key(n)), at + ": a key never inserted is found");
    DynamicData c(d); check(c, 0, n, at + " copied"); REQUIRE(c == d && c.hash() == d.hash(), at + ": a copy differs");
    for(size_t k : {n - 1, size_t(0), n / 2}) { DynamicData y(c); DynamicData kk = key(k); e.put(y[kk], k + 1); REQUIRE(y != c, at + ": a difference is not seen"); }
    DynamicData m(std::move(c)); check(m, 0, n, at + " moved");
    DynamicData a(q); a = d; check(a, 0, n, at + " assigned");
    MapType bound(*kt, *et, uint32_t(n - 1)); DynamicData b(d, bound); REQUIRE(b.size() == n - 1, at + ": converted to a smaller bound");
    size_t it = 0; for(auto&& r : d) { (void)r; ++it; } REQUIRE(it == n, at + ": iteration");
}
// structures, unions and nestings beyond the widths of 8 bits
static void large_struct(size_t n, int parents)
{
    static const std::vector<LElem> E = large_elems();
    std::string at = "structure of " + std::to_string(n) + " members" + (parents ? " in " + std::to_string(parents + 1) + " levels" : "");
    auto el = [&](size_t i) -> const LElem& { return E[i % E.size()]; };
    std::vector<std::unique_ptr<StructType>> chain; size_t made = 0;
    auto build = [&](size_t count) -> const StructType& { chain.clear(); made = 0;
        for(int p = 0; p <= parents; ++p) { chain.emplace_back(p ? new StructType("S" + std::to_string(p), chain.back().get()) : new StructType("S")); size_t upto = p == parents ? count : count * size_t(p + 1) / size_t(parents + 1); for(; made < upto; ++made) chain.back()->add_member("m" + std::to_string(made), *el(made).type()); }
        return *chain.back(); };
    StructType t(build(n));
    REQUIRE(t.members().size() == n, at + ": members()");
    auto put_all = [&](DynamicData& d) { for(size_t i = 0; i < n; ++i) if(i % 2) el(i).put(d[i], i); else el(i).put(d["m" + std::to_string(i)], i); };
    auto check = [&](const DynamicData& d, size_t written, size_t count, const std::string& when) { REQUIRE(d.size() == count, when + ": size()");
        for(size_t i = 0; i < count; ++i) REQUIRE(el(i).is(d[i], i, i < written) && el(i).is(d["m" + std::to_string(i)], i, i < written), when + ": member " + std::to_string(i) + " does not hold its value"); };
    DynamicData d(t); check(d, 0, n, at + " created");
    for(size_t i = 0; i < n; ++i) { el(i).put(d[i], i); if(i % 64 == 63) check(d, i + 1, n, at + " while it is written"); }
    put_all(d); check(d, n, n, at);
    DynamicData c(d); check(c, n, n, at + " copied"); REQUIRE(c == d && c.hash() == d.hash(), at + ": a copy differs");
    for(size_t k : {size_t(0), n / 2, n - 1, n > 256 ? n - 257 : 0, size_t(255) < n ? size_t(255) : 0, size_t(256) < n ? size_t(256) : 0}) { DynamicData y(c); el(k).put(y[k], k + 1); REQUIRE(y != c && !(y == c), at + ": a difference in member " + std::to_string(k) + " is not seen"); check(c, n, n, at + " after changing a copy"); }
    DynamicData m(std::move(c)); check(m, n, n, at + " moved");
    DynamicData a(t); a = d; check(a, n, n, at + " assigned"); a = a; check(a, n, n, at + " self assigned");
    size_t visits = 0; bool order = true;
    d.for_each([&](const DynamicData::ReadableNode& node) { if(node.deep() == 1) { order = order && visits < n && node.from_index() == visits && node.from_member() && node.from_member()->name() == "m" + std::to_string(visits) && el(visits).is(node.data(), visits, true); ++visits; } });
    REQUIRE(order && visits == n, at + ": for_each does not visit every member in order");
    size_t it = 0; order = true; for(auto&& r : d.items()) { order = order && it < n && el(it).is(r.data(), it, true); ++it; } REQUIRE(order && it == n, at + ": items() does not visit every member in order");
    StructType less(build(n - 1)), more(build(n + 300));
    REQUIRE(t.is_compatible(t) == TypeConsistency::EQUALS && t.is_compatible(less) != TypeConsistency::NONE && t.is_compatible(less) != TypeConsistency::EQUALS && more.is_compatible(t) != TypeConsistency::NONE && more.is_compatible(t) != TypeConsistency::EQUALS, at + ": is_compatible() with other numbers of members");
    StructType odd("S"); for(size_t i = 0; i < n; ++i) odd.add_member("m" + std::to_string(i), i == n - 1 ? static_cast<const DynamicType&>(ArrayType(primitive_type<double>(), 3)) : *el(i).type());
    REQUIRE(t.is_compatible(odd) == TypeConsistency::NONE && odd.is_compatible(t) == TypeConsistency::NONE, at + ": is_compatible() with another type of the last member");
    DynamicData s(d, less), b(d, more); check(s, n - 1, n - 1, at + " converted to less members"); check(b, n, n + 300, at + " converted to more members"); check(d, n, n, at + " after conversions");
    REQUIRE(rejects([&]{ d[n]; }) && rejects([&]{ d["m" + std::to_string(n)]; }) && rejects([&]{ StructType(t).add_member("m" + std::to_string(n - 1), primitive_type<int8_t>()); }), at + ": a misuse is accepted");
}
static void large_union(size_t n)
{
    static const std::vector<LElem> E = large_elems();
    std::string at = "union of " + std::to_string(n) + " members";
    auto el = [&](size_t i) -> const LElem& { return E[i % E.size()]; };
    UnionType u("U", primitive_type<uint16_t>());
    for(size_t i = 0; i < n; ++i) u.add_case_member<uint16_t>({uint16_t(3 * i), uint16_t(3 * i + 1)}, Member("m" + std::to_string(i), *el(i).type()), i == n - 1);
    DynamicData d(u); REQUIRE(d.d().value<uint16_t>() / 3 == n - 1, at + ": the default member is not selected");
    DynamicData prev(d);
    for(size_t j = 0; j < n; ++j)
    {
        size_t i = j * 7 % n; if(n % 7 == 0) i = j;
        std::string name = "m" + std::to_string(i);
        el(i).put(d[name], i);
        REQUIRE(d.current_case().name() == name && d.d().value<uint16_t>() / 3 == i, at + ": member " + name + " is not selected");
        REQUIRE(el(i).is(d[name], i, true), at + ": value of " + name);
        DynamicData c(d); REQUIRE(c == d && c.hash() == d.hash() && c != prev && el(i).is(c[name], i, true), at + ": a copy differs"); prev = c;
        size_t other = (i + 1) % n;
        REQUIRE(rejects([&]{ d.d(uint16_t(3 * other)); }) && rejects([&]{ static_cast<const DynamicData&>(d)["m" + std::to_string(other)]; }), at + ": a member that is not selected is available");
        d.d(uint16_t(3 * i + 1)); REQUIRE(d.d().value<uint16_t>() == 3 * i + 1 && el(i).is(d[name], i, true), at + ": the other label of " + name);
        bool seen = false; d.for_each([&](const DynamicData::ReadableNode& node) { if(node.deep() == 1) seen = node.from_index() == 3 * i + 1 && node.from_member()->name() == name; }); REQUIRE(seen, at + ": visit of " + name);
    }
    DynamicData m(std::move(d)); REQUIRE(m == m, at);
}
static void deep_nesting(size_t n, int how)    // structures, sequences, arrays of one, pairs of a map, aliases
{
    std::string at = "nesting of depth " + std::to_string(n);
    DynamicType::Ptr t = primitive_type<uint16_t>();
    std::vector<int> shape; for(size_t i = 0; i < n; ++i) shape.push_back(how < 4 ? how : int(i * 5 % 4));
    for(size_t i = 0; i < n; ++i) switch(shape[i])
    {
        case 0: { StructType s("S" + std::to_string(i)); s.add_member("a", primitive_type<uint8_t>()); s.add_member("b", *t); t = DynamicType::Ptr(s); } break;
        case 1: t = DynamicType::Ptr(SequenceType(*t)); break;
        case 2: t = DynamicType::Ptr(ArrayType(*t, 1)); break;
        case 3: t = DynamicType::Ptr(AliasType(*t, "A" + std::to_string(i))); break;
    }
    DynamicData d(*t);
    std::function<void(WritableDynamicDataRef, size_t, uint16_t)> put = [&](WritableDynamicDataRef r, size_t j, uint16_t v) { if(j == 0) { r.value<uint16_t>(v); return; } switch(shape[j - 1]) { case 0: put(r["b"], j - 1, v); break; case 1: if(r.size() == 0) r.resize(1); put(r[0], j - 1, v); break; case 2: put(r[0], j - 1, v); break; default: put(r, j - 1, v); } };
    std::function<uint16_t(ReadableDynamicDataRef, size_t)> get = [&](ReadableDynamicDataRef r, size_t j) -> uint16_t { if(j == 0) return r.value<uint16_t>(); switch(shape[j - 1]) { case 0: return get(r["b"], j - 1); case 1: case 2: return get(r[0], j - 1); default: return get(r, j - 1); } };
    put(d.ref(), n, 4711);
    REQUIRE(get(d, n) == 4711, at + ": value");
    DynamicData c(d); REQUIRE(c == d && c.hash() == d.hash() && get(c, n) == 4711, at + ": a copy differs");
    put(c.ref(), n, 4712); REQUIRE(c != d && get(d, n) == 4711 && get(c, n) == 4712, at + ": a copy is not independent");
    size_t deepest = 0; bool found = false, order = true; size_t last = 0; d.for_each([&](const DynamicData::ReadableNode& node) { order = order && node.deep() <= last + 1; last = node.deep(); if(node.deep() > deepest) { deepest = node.deep(); found = false; } if(node.deep() == deepest) found = found || node.type().kind() == TypeKind::UINT_16_TYPE || node.type().kind() == TypeKind::ALIAS_TYPE; });
    size_t levels = 0; for(int x : shape) levels += x != 3;
    REQUIRE(deepest == levels && found && order, at + ": for_each reaches depth " + std::to_string(deepest) + " instead of " + std::to_string(levels));
    REQUIRE(t->is_compatible(*t) == TypeConsistency::EQUALS, at + ": not compatible with itself");
    DynamicData m(std::move(c)); REQUIRE(get(m, n) == 4712, at + ": moved");
}
static void large_cases(const char* what, bool leak)
{
    auto add = [=](const std::string& n, std::function<void()> f) { add_case(n, [=]{ if(leak) noleak(n, f); else f(); }); };
    std::string w = what;
    for(auto& e : large_elems())
    {
        bool prim = e.name[0] == 'u' || e.name[0] == 'i';
        if(w.find('s') != std::string::npos) for(size_t n : {size_t(255), size_t(256), size_t(257), size_t(300), prim ? size_t(65536) : size_t(4097), size_t(66000)}) { if(!prim && n > 60000 && !leak && !TH) continue; add("large sequence of " + std::to_string(n) + " " + e.name, [=]{ large_sequence(e, n, n % 2); }); }
        if(w.find('a') != std::string::npos) for(size_t n : {size_t(255), size_t(256), size_t(257), size_t(300), prim ? size_t(65537) : size_t(4097), size_t(66000)}) { if(!prim && n > 60000 && !leak && !TH) continue; add("large array of " + std::to_string(n) + " " + e.name, [=]{ large_array(e, n); }); }
        if(w.find('m') != std::string::npos) for(int s = 0; s < 2; ++s) for(size_t n : {size_t(256), size_t(700)}) add("large map of " + std::to_string(n) + " " + e.name + (s ? " by string" : ""), [=]{ large_map(e, n, s, n == 256); });
    }
    if(w.find('t') != std::string::npos) for(size_t n : {size_t(17), size_t(255), size_t(256), size_t(300)}) for(int p : {0, 1, 9}) add("large structure of " + std::to_string(n) + " members, " + std::to_string(p) + " parents", [=]{ large_struct(n, p); });
    if(w.find('u') != std::string::npos) for(size_t n : {size_t(9), size_t(255), size_t(300)}) add("large union of " + std::to_string(n) + " members", [=]{ large_union(n); });
    if(w.find('n') != std::string::npos) for(size_t n : {size_t(20), size_t(300)}) for(int how = 0; how < 5; ++how) add("nesting " + std::to_string(how) + " of depth " + std::to_string(n), [=]{ deep_nesting(n, how); });
}
