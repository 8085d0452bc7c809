#include "common.hpp"
#include <xtypes/idl/Module.hpp>
// ------------------------------------------------------------------ C16
struct MM { MM* outer = nullptr; std::string name; std::map<std::string, char> sym; std::map<std::string, std::unique_ptr<MM>> inner; idl::Module* real = nullptr; std::string path() const { return outer ? (outer->path().empty() ? name : outer->path() + "::" + name) : ""; }
    bool has(const std::string& s) const { return sym.count(s) || inner.count(s); } };
static const MM* m_strict(const MM* m, const std::string& n, std::string& last)
{
    size_t p = n.find("::");
    if(p == std::string::npos) { last = n; return m->has(n) ? m : nullptr; }
    auto it = m->inner.find(n.substr(0, p));
    return it == m->inner.end() ? nullptr : m_strict(it->second.get(), n.substr(p + 2), last);
}
static const MM* m_resolve(const MM* m, const std::string& n, std::string& last)
{
    if(n.compare(0, 2, "::") == 0) { while(m->outer) m = m->outer; return m_strict(m, n.substr(2), last); }
    size_t p = n.find("::"); std::string first = n.substr(0, p);
    while(m && !(p == std::string::npos ? m->has(n) : m->inner.count(first) > 0)) m = m->outer;
    return m ? m_strict(m, n, last) : nullptr;
}
static void c16_check(MM* m, const std::string& n)
{
    std::string last; const MM* w = m_resolve(m, n, last); char k = 0;
    if(w && w->sym.count(last)) k = w->sym.at(last);
    const idl::Module& c = *m->real; idl::Module& x = *m->real;
    std::string at = "'" + n + "' in module '" + m->path() + "'";
    REQUIRE(c.has_structure(n) == (k == 's') && c.has_union(n) == (k == 'u') && c.has_alias(n) == (k == 'a') && c.has_enum_32(n) == (k == 'e') && c.has_constant(n) == (k == 'c'), at + " should denote " + (k ? std::string(1, k) + " of '" + w->path() + "'" : std::string("nothing")));
    std::string full = w ? (w->path().empty() ? "" : w->path() + "::") + last : "";
    if(k == 's') REQUIRE(c.structure(n).name() == full && x.structure(n).name() == full, at + " gives the structure " + c.structure(n).name() + " instead of " + full); else REQUIRE(rejects([&]{ c.structure(n); }) && rejects([&]{ x.structure(n); }), "structure() accepts " + at);
    if(k == 'u') REQUIRE(c.union_switch(n).name() == full && x.union_switch(n).name() == full, at + " gives another union"); else REQUIRE(rejects([&]{ c.union_switch(n); }) && rejects([&]{ x.union_switch(n); }), "union_switch() accepts " + at);
    if(k == 'a') REQUIRE(c.alias(n).name() == full && x.alias(n).name() == full, at + " gives another alias"); else REQUIRE(rejects([&]{ c.alias(n); }) && rejects([&]{ x.alias(n); }), "alias() accepts " + at);
    if(k == 'e') REQUIRE(c.enum_32(n).name() == full && x.enum_32(n).name() == full, at + " gives another enumeration"); else REQUIRE(rejects([&]{ c.enum_32(n); }) && rejects([&]{ x.enum_32(n); }), "enum_32() accepts " + at);
    if(k == 'c') REQUIRE(c.constant(n).value<uint32_t>() == uint32_t(std::hash<std::string>()(full)), at + " gives another constant");
    auto ty = x.type(n);
    REQUIRE((ty.get() != nullptr) == (k == 's' || k == 'u' || k == 'a' || k == 'e'), "type() of " + at);
    if(ty.get()) { REQUIRE(ty->kind() == (k == 's' ? TypeKind::STRUCTURE_TYPE : k == 'u' ? TypeKind::UNION_TYPE : k == 'a' ? TypeKind::ALIAS_TYPE : TypeKind::ENUMERATION_TYPE), "kind of type() of " + at); if(n.compare(0, 2, "::")) REQUIRE(ty->name() == full, "type() of " + at + " gives " + ty->name()); }
    if(n.find("::") == std::string::npos) { bool any = false; unsigned cnt = 0; for(const MM* q = m; q; q = q->outer) { any |= q->has(n); cnt += q->has(n); } REQUIRE(c.has_symbol(n) == any && c.has_symbol(n, false) == m->has(n) && c.symbol_count(n) == cnt && c.has_submodule(n) == (m->inner.count(n) > 0), "has_symbol of " + at); REQUIRE((x.submodule(n) != nullptr) == (m->inner.count(n) > 0), "submodule() of " + at); }
}
static void c16_one(Rng& r)
{
    idl::Module root; MM top; top.real = &root; std::vector<MM*> all = {&top};
    static const char* SETS[][5] = {{"A", "B", "C", "x", "y"}, {"A", "AA", "AAA", "B", "AB"}, {"name", "name_", "other_name_beyond_the_small_strings", "other_name_beyond_the_small_string", "n"}};
    const char* const (&NM)[5] = SETS[r.below(3)]; auto nm = [&]{ return std::string(NM[r.below(5)]); };
    auto add = [&](MM* m, const std::string& n, char k) {
        std::string full = (m->path().empty() ? "" : m->path() + "::") + n; bool ok = false; idl::Module& mod = *m->real; bool lv = r.coin();
        switch(k)
        {
            case 's': { StructType s(n); s.add_member("m", primitive_type<int32_t>()); ok = lv ? mod.structure(s) : mod.structure(std::move(s)); break; }
            case 'u': { UnionType u(n, primitive_type<int32_t>()); u.add_case_member<int64_t>({1}, Member("m", primitive_type<int8_t>())); ok = lv ? mod.union_switch(u) : mod.union_switch(std::move(u)); break; }
            case 'a': { AliasType a(primitive_type<int32_t>(), n); ok = lv ? mod.create_alias(DynamicType::Ptr(primitive_type<int32_t>()), n) : r.coin() ? mod.add_alias(a) : mod.add_alias(AliasType(a)); break; }
            case 'e': { EnumerationType<uint32_t> e(n); e.add_enumerator("Q", 1); ok = mod.enum_32(std::move(e)); break; }
            default: { DynamicData d(primitive_type<uint32_t>()); d = uint32_t(std::hash<std::string>()(full)); ok = mod.create_constant(n, d, false, lv); REQUIRE(!ok || mod.is_const_from_enum(n) >= lv, "is_const_from_enum('" + n + "')"); }
        }
        REQUIRE(ok == !m->has(n), std::string("adding ") + k + " '" + full + "' " + (ok ? "over another entity is accepted" : "is refused"));
        if(ok) m->sym[n] = k;
    };
    // replace = true: only an entity of the same kind gives way
    auto replace = [&](MM* m, const std::string& n, char k) {
        std::string full = (m->path().empty() ? "" : m->path() + "::") + n; bool ok = false; idl::Module& mod = *m->real; std::string mk = "r" + std::to_string(r.below(1000)); bool same = m->sym.at(n) == k;
        switch(k)
        {
            case 's': { StructType s(n); s.add_member(mk, primitive_type<int32_t>()); ok = mod.structure(std::move(s), true); if(ok) REQUIRE(mod.structure(n).has_member(mk), "replaced structure " + full); break; }
            case 'u': { UnionType u(n, primitive_type<int32_t>()); u.add_case_member<int64_t>({1}, Member(mk, primitive_type<int8_t>())); ok = mod.union_switch(std::move(u), true); if(ok) REQUIRE(mod.union_switch(n).has_member(mk), "replaced union " + full); break; }
            case 'e': { EnumerationType<uint32_t> e(n); e.add_enumerator(mk, 7); ok = mod.enum_32(std::move(e), true); if(ok) REQUIRE(mod.enum_32(n).has_enumerator(mk), "replaced enumeration " + full); break; }
            default: { DynamicData d(primitive_type<uint32_t>()); d = uint32_t(std::hash<std::string>()(full)); ok = mod.create_constant(n, d, true); }
        }
        REQUIRE(ok == same, std::string("replacing '") + full + "' by an entity of kind " + k + (ok ? " is accepted" : " is refused"));
    };
    for(int i = 0; i < 22; ++i)
    {
        MM* m = all[r.below(all.size())]; std::string n = nm();
        if(r.coin(3)) { if(!m->has(n)) { idl::Module& s = m->real->create_submodule(n); auto c = std::make_unique<MM>(); c->outer = m; c->name = n; c->real = &s; all.push_back(c.get()); m->inner[n] = std::move(c); } else if(m->inner.count(n)) { REQUIRE(&m->real->create_submodule(n) == m->inner[n]->real, "reopened module is another one"); } }
        else if(m->sym.count(n) && r.coin(4)) replace(m, n, "suec"[r.below(4)]);
        else add(m, n, "suaec"[r.below(5)]);
        for(int q = 0; q < 12; ++q) { std::string name = r.coin(3) ? "::" : ""; size_t parts = 1 + r.below(4); for(size_t p = 0; p < parts; ++p) name += (p ? "::" : "") + nm(); if(r.coin(6)) { static const char* ODD[] = {"::", ":", "::::", ":::"}; size_t at = r.below(name.size() + 1); name.insert(at, ODD[r.below(4)]); } c16_check(all[r.below(all.size())], name); }
    }
    for(MM* m : all) { for(auto n : {"", ":", "::", ":::", "::::"}) c16_check(m, n); REQUIRE(m->real->scope() == m->path() && m->real->submodule_size() == m->inner.size(), "scope of module " + m->path()); for(auto n : NM) { c16_check(m, n); c16_check(m, std::string(n) + "::"); c16_check(m, std::string(n) + "::::" + n); c16_check(m, std::string("::") + n + "::"); c16_check(m, std::string("::::") + n); c16_check(m, std::string(n) + ":"); c16_check(m, std::string("::") + n); for(auto k : NM) { c16_check(m, std::string(n) + "::" + k); } } }
    REQUIRE(!root.structure(*std::make_unique<StructType>("A::b")), "scoped name accepted");
}
static void c16_deep(size_t n, bool global)
{
    idl::Module root; idl::Module* m = &root; std::string path; std::vector<idl::Module*> all = {m}; std::vector<std::string> paths = {""};
    auto def = [](idl::Module& m, const std::string& n) { StructType s(n); s.add_member("first_definition", primitive_type<int8_t>()); return m.structure(s); };
    REQUIRE(def(root, "Top") && def(root, "Shared"), "adding");
    for(size_t i = 0; i < n; ++i) { std::string name = "m" + std::to_string(i); m = &m->create_submodule(name); path += (path.empty() ? "" : "::") + name; all.push_back(m); paths.push_back(path); if(i == n / 2) REQUIRE(def(*m, "Shared"), "adding"); REQUIRE(def(*m, "Own" + std::to_string(i)), "adding"); }
    for(size_t i = 0; i <= n; ++i) for(std::string name : {std::string("Top"), std::string("Shared"), "Own" + std::to_string(i / 2), "Own" + std::to_string(n), "::" + paths[n] + "::Own" + std::to_string(n - 1), "::" + paths[n / 2] + "::Top"})
    {
        std::string want = name == "Top" ? "Top" : name == "Shared" ? (i > n / 2 ? paths[n / 2 + 1] + "::Shared" : "Shared") : name == "Own" + std::to_string(i / 2) && i / 2 < i ? paths[i / 2 + 1] + "::" + name : name == "::" + paths[n] + "::Own" + std::to_string(n - 1) ? name.substr(2) : "";
        const idl::Module& c = *all[i];
        REQUIRE(c.has_structure(name) == !want.empty(), "'" + name.substr(0, 60) + "' in a module of depth " + std::to_string(i));
        if(!want.empty()) REQUIRE(c.structure(name).name() == want, "'" + name.substr(0, 60) + "' in a module of depth " + std::to_string(i) + " denotes another structure");
        if(name.find("::") == std::string::npos) REQUIRE(c.has_symbol(name) == !want.empty() && c.symbol_count(name) == (want.empty() ? 0u : name == "Shared" && i > n / 2 ? 2u : 1u), "has_symbol of " + name + " in a module of depth " + std::to_string(i));
    }
    if(global) for(size_t i = 0; i < 300; ++i) REQUIRE(def(root, "g" + std::to_string(i)) && root.create_submodule("s" + std::to_string(i)).scope() == "s" + std::to_string(i), "adding");
    if(global) for(size_t i = 0; i < 300; ++i) REQUIRE(m->has_structure("g" + std::to_string(i)) && !def(root, "g" + std::to_string(i)) && root.has_submodule("s" + std::to_string(i)), "many entities");
}
static void c16_taken(char k, char by)      // an entity that is already there stays as it was
{
    auto add = [](idl::Module& m, char k, int variant) -> bool {
        std::string mk = variant ? "second" : "first";
        switch(k)
        {
            case 's': { StructType s("N"); s.add_member(mk, primitive_type<int8_t>()); return m.structure(s); }
            case 'S': { StructType s("N"); s.add_member(mk, primitive_type<int8_t>()); return m.structure(std::move(s)); }
            case 'u': { UnionType u("N", primitive_type<int32_t>()); u.add_case_member<int64_t>({1}, Member(mk, primitive_type<int8_t>())); return m.union_switch(u); }
            case 'U': { UnionType u("N", primitive_type<int32_t>()); u.add_case_member<int64_t>({1}, Member(mk, primitive_type<int8_t>())); return m.union_switch(std::move(u)); }
            case 'a': return m.create_alias(DynamicType::Ptr(variant ? static_cast<const DynamicType&>(primitive_type<int8_t>()) : primitive_type<uint64_t>()), "N");
            case 'A': { AliasType a(variant ? static_cast<const DynamicType&>(primitive_type<int8_t>()) : primitive_type<uint64_t>(), "N"); return m.add_alias(a); }
            case 'B': return m.add_alias(AliasType(variant ? static_cast<const DynamicType&>(primitive_type<int8_t>()) : primitive_type<uint64_t>(), "N"));
            case 'e': { EnumerationType<uint32_t> e("N"); e.add_enumerator(mk, variant + 1); return m.enum_32(std::move(e)); }
            case 'c': { DynamicData d(primitive_type<uint32_t>()); d = uint32_t(variant + 1); return m.create_constant("N", d); }
            default: { DynamicData d(StringType{}); d = mk; return m.create_constant("N", d, false, true); }
        }
    };
    for(int in = 0; in < 2; ++in)
    {
        idl::Module root; idl::Module& m = in ? root.create_submodule("Inner") : root;
        if(k != 'm') REQUIRE(add(m, k, 0), "adding"); else m.create_submodule("N").create_submodule("first");
        REQUIRE(!add(m, by, 1) && !add(m, by, 1), std::string("an entity of kind ") + by + " is added over one of kind " + k);
        std::string full = in ? "Inner::N" : "N", at = std::string("an entity of kind ") + k + " after the refusal of one of kind " + by;
        char g = char(tolower(k)); if(k == 'B') g = 'a'; if(k == 'C') g = 'c';
        REQUIRE(m.has_structure("N") == (g == 's') && m.has_union("N") == (g == 'u') && m.has_alias("N") == (g == 'a') && m.has_enum_32("N") == (g == 'e') && m.has_constant("N") == (g == 'c') && m.has_submodule("N") == (g == 'm'), at + " is another one");
        if(g == 's') REQUIRE(m.structure("N").name() == full && m.structure("N").has_member("first") && m.structure("N").members().size() == 1, at);
        if(g == 'u') REQUIRE(m.union_switch("N").name() == full && m.union_switch("N").has_member("first"), at);
        if(g == 'a') REQUIRE(m.alias("N").name() == full && m.alias("N").get().kind() == TypeKind::UINT_64_TYPE, at);
        if(g == 'e') REQUIRE(m.enum_32("N").name() == full && m.enum_32("N").has_enumerator("first") && !m.enum_32("N").has_enumerator("second"), at);
        if(k == 'c') REQUIRE(m.constant("N").value<uint32_t>() == 1, at);
        if(k == 'C') REQUIRE(m.constant("N").value<std::string>() == "first" && m.is_const_from_enum("N"), at);
        if(g == 'm') REQUIRE(m["N"].has_submodule("first"), at);
        if(by == 'C' && k != 'C') REQUIRE(!m.is_const_from_enum("N"), at + " is one of an enumeration");
    }
}
static void c16() {
    for(size_t n : {size_t(3), size_t(20), size_t(130)}) add_case("deep modules " + std::to_string(n), [=]{ c16_deep(n, n == 20); });
    for(char k : std::string("sSuUaABecCm")) for(char by : std::string("sSuUaABecC")) add_case(std::string("taken ") + k + " " + by, [=]{ c16_taken(k, by); });
    for(size_t c = 0; c < N(250, 2500); ++c) add_case("module tree " + std::to_string(c), [=]{ Rng r = rng(16, c); for(int i = 0; i < 3; ++i) c16_one(r); }); }
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c16(); }
