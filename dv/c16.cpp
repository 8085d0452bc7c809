// C16: resolution of names in a module, against the contract of the resolution in the enclosing module and in the submodules
#include "c16.hpp"
#ifndef XT_NATIVE
HARNESS(resolve_last)      // a name whose first part has been resolved: only downwards
{
    uint64_t full = any_name(), symbol = any_name(); ASSUME(xn::len(symbol) < xn::len(full)); ASSUME(symbol != full);
    tree(full, symbol, false); Res d = denoted();
    auto r = T.m->resolve_scope(XName::of(symbol), XName::of(full), false);
    ASSERT(r.first == (d.found ? d.m : nullptr), "the module in which the rest of a name is found"); if(d.found) { ASSERT(r.second.get() == d.n, "the last part of a name is what is looked for"); ASSERT(defines(r.first, r.second.get()), "a name is found where it is defined"); }
}
HARNESS(resolve_whole)
{
    uint64_t full = any_name(); tree(full, full, true); Res d = denoted();
    auto r = T.m->resolve_scope(XName::of(full), XName::of(full), true);
    ASSERT(r.first == (d.found ? d.m : nullptr), "the module in which a name is found"); if(d.found) { ASSERT(r.second.get() == d.n, "the last part of a name is what is looked for"); ASSERT(defines(r.first, r.second.get()), "a name is found where it is defined"); }
}
HARNESS(has)
{
    uint64_t full = any_name(); tree(full, full, true); Res d = denoted(); XName n = XName::of(full); const Module& m = *T.m;
    ASSERT(m.has_structure(n) == (d.found & d.m->structs_.has(d.n)), "has_structure() finds what the name denotes");
    ASSERT(m.has_union(n) == (d.found & d.m->unions_.has(d.n)), "has_union() finds what the name denotes");
    ASSERT(m.has_alias(n) == (d.found & d.m->aliases_.has(d.n)), "has_alias() finds what the name denotes");
    ASSERT(m.has_enum_32(n) == (d.found & d.m->enumerations_32_.has(d.n)), "has_enum_32() finds what the name denotes");
    ASSERT(m.has_constant(n) == (d.found & d.m->constants_.has(d.n)), "has_constant() finds what the name denotes");
}
// the entities of a kind, in the two modules in which the name can end: the one of that name, and another
template<class F, class X> void entities(F of, const X& x)
{
    for(Module* m : {T.m, T.r}) { auto& e = of(*m); e.key = m == T.m ? T.full : T.up.n; e.cell = new std::pair<const XName, Type>(XName::of(e.key), Type(*m, x)); e.other = new std::pair<const XName, Type>(XName::of(0), Type(*m, x)); }
}
// the modules of the recursive resolutions end with the same name where they find one: it is arbitrary
inline void whole(uint64_t full) { tree(full, full, true); ASSUME((T.down.n == T.up.n) & (T.self.n == T.up.n)); }
template<class F, class G> void get(F of, G call)
{
    Res d = denoted(); auto& e = of(const_cast<Module&>(*d.m)); bool there = d.found & e.has(d.n); const DynamicType* t = nullptr;
    bool no = refused([&]{ t = call(XName::of(T.full)); });
    ASSERT(no == !there, "an entity is found exactly where the name denotes one of its kind"); if(!no) ASSERT(t == e.cell->second.get().get(), "what is found is what the name denotes");
}
template<class F, class X, class A, class B> void getters(F of, const X& x, A a, B b) { whole(any_name()); entities(of, x); if(nd<bool>()) get(of, a); else get(of, b); }
static UnionType any_union() { return UnionType(raw(2), primitive_type<int32_t>()); }
HARNESS(get_structure) { getters([](Module& m) -> auto& { return m.structs_; }, StructType(raw(2)), [](const XName& n) { return &static_cast<const Module&>(*T.m).structure(n); }, [](const XName& n) { return &T.m->structure(n); }); }
HARNESS(get_union) { getters([](Module& m) -> auto& { return m.unions_; }, any_union(), [](const XName& n) { return &static_cast<const Module&>(*T.m).union_switch(n); }, [](const XName& n) { return &T.m->union_switch(n); }); }
HARNESS(get_alias) { getters([](Module& m) -> auto& { return m.aliases_; }, AliasType(primitive_type<int32_t>(), raw(2)), [](const XName& n) { return &static_cast<const Module&>(*T.m).alias(n); }, [](const XName& n) { return &T.m->alias(n); }); }
HARNESS(get_enum) { EnumerationType<uint32_t> x(raw(2)); getters([](Module& m) -> auto& { return m.enumerations_32_; }, x, [](const XName& n) { return &static_cast<const Module&>(*T.m).enum_32(n); }, [](const XName& n) { return &T.m->enum_32(n); }); }
HARNESS(get_constant)
{
    whole(any_name()); Res d = denoted(); int32_t v = nd<int32_t>();
    for(Module* m : {T.m, T.r}) { auto& e = m->constants_; e.key = m == T.m ? T.full : T.up.n; DynamicData x(primitive_type<int32_t>()), y(primitive_type<int32_t>()); x.value<int32_t>(m == d.m ? v : v ^ 1); y.value<int32_t>(v ^ 2); e.cell = new std::pair<const XName, DynamicData>(XName::of(e.key), x); e.other = new std::pair<const XName, DynamicData>(XName::of(0), y); }
    DynamicData r = static_cast<const Module&>(*T.m).constant(XName::of(T.full));
    if(d.found & d.m->constants_.has(d.n)) { ASSERT(r.type().kind() == TypeKind::INT_32_TYPE, "what is found is what the name denotes"); ASSERT(r.value<int32_t>() == v, "what is found is what the name denotes"); } else ASSERT(r.type().kind() == TypeKind::BOOLEAN_TYPE, "a name that denotes no constant yields none");
}
HARNESS(get_type)
{
    whole(any_name()); Res d = denoted(); Module& w = const_cast<Module&>(*d.m); EnumerationType<uint32_t> x(raw(2));
    entities([](Module& m) -> auto& { return m.structs_; }, StructType(raw(2))); entities([](Module& m) -> auto& { return m.unions_; }, any_union()); entities([](Module& m) -> auto& { return m.aliases_; }, AliasType(primitive_type<int32_t>(), raw(2))); entities([](Module& m) -> auto& { return m.enumerations_32_; }, x);
    bool s = w.structs_.has(d.n), u = w.unions_.has(d.n), a = w.aliases_.has(d.n), e = w.enumerations_32_.has(d.n), c = w.constants_.has(d.n), i = w.inner_.has(d.n);
    ASSUME(s + u + a + e + c + i <= 1);                                                              // a name is taken once in a module (add_* below)
    DynamicType::Ptr t = T.m->type(XName::of(T.full));
    ASSERT((t.get() != nullptr) == (d.found & (s | u | a | e)), "type() finds a type exactly where the name denotes one");
    if(t.get()) ASSERT(t->kind() == (s ? TypeKind::STRUCTURE_TYPE : u ? TypeKind::UNION_TYPE : a ? TypeKind::ALIAS_TYPE : TypeKind::ENUMERATION_TYPE), "what is found is what the name denotes");
}
HARNESS(symbols)
{
    uint64_t n = any_name(); tree(n, n, true); const Module& m = *T.m; bool here = defines(T.m, n), e = nd<bool>();
    ASSERT(m.has_symbol(XName::of(n), e) == (here | (e && T.outer ? T.up_has : false)), "has_symbol() tells whether the module, or one around it, defines the name");
    ASSERT(m.symbol_count(XName::of(n)) == uint32_t(here) + (T.outer ? T.up_count : 0u), "symbol_count() counts the modules that define the name");
    T.m->inner_.key = n; ASSERT(m.has_submodule(XName::of(n)) == T.m->inner_.has(n), "has_submodule() tells whether the module has it");
    auto p = T.m->submodule(XName::of(n)); ASSERT(p.get() == (T.m->inner_.has(n) ? T.child : nullptr), "submodule() gives the submodule of the name");
    Module* s = nullptr; bool no = refused([&]{ s = nd<bool>() ? &(*T.m)[XName::of(n)] : const_cast<Module*>(&m[XName::of(n)]); });
    ASSERT(no == !T.m->inner_.has(n) && (no || s == T.child), "the submodule of the name is given, where there is one");
}
// adding: what is in the module before and after
inline void module_invariant_holds(Module* m, uint64_t n) { ASSERT(m->structs_.has(n) + m->unions_.has(n) + m->aliases_.has(n) + m->enumerations_32_.has(n) + m->constants_.has(n) + m->inner_.has(n) == 1, "a name is taken once in a module"); ASSERT(m->constants_.has(n) == m->constants_types_.has(n), "internal: constants have their types"); }
inline bool untouched(Module* m) { return !m->structs_.inserted && !m->structs_.erased && !m->unions_.inserted && !m->unions_.erased && !m->aliases_.inserted && !m->aliases_.erased && !m->enumerations_32_.inserted && !m->enumerations_32_.erased && !m->constants_.inserted && !m->constants_.erased && !m->constants_types_.inserted && !m->constants_types_.erased && !m->inner_.inserted && !m->inner_.erased && m->from_enum_.empty(); }
// invariants of a module: a name is taken once, constants have their types
inline void module_invariant(Module* m, uint64_t n) { ASSUME(m->structs_.has(n) + m->unions_.has(n) + m->aliases_.has(n) + m->enumerations_32_.has(n) + m->constants_.has(n) + m->inner_.has(n) <= 1); ASSUME(m->constants_.has(n) == m->constants_types_.has(n)); }
template<class F, class A> void adding(F of, bool replace, A add)
{
    uint64_t n = any_name(); tree(n, n, true); Module* m = T.m; module_invariant(m, n); auto& e = of(*m); e.key = n; bool own = e.has(n), taken = defines(m, n) & !(replace & own), scoped = xn::sep(n) != xn::NPOS;
    bool ok = add(*m, n);
    if(scoped) { ASSERT(!ok, "a scoped name is refused"); } else if(taken) { ASSERT(!ok, "a name that is taken is refused"); } else ASSERT(ok, "a name that is free is accepted");
    if(!ok) ASSERT(untouched(m), "a refused addition changes nothing in the module");
    else
    {
        ASSERT(e.inserted == 1 && e.ikey == n && e.erased == own && (!own || e.ekey == n), "the entity is added under its name"); module_invariant_holds(m, n);
        e.inserted = e.erased = 0; m->constants_types_.inserted = m->constants_types_.erased = 0; m->from_enum_.clear(); ASSERT(untouched(m), "nothing else in the module changes");
    }
}
HARNESS(add_structure) { adding([](Module& m) -> auto& { return m.structs_; }, false, [](Module& m, uint64_t n) { StructType t(raw(n)); return m.structure(t); }); }
HARNESS(add_structure_rvalue) { bool r = nd<bool>(); adding([](Module& m) -> auto& { return m.structs_; }, r, [=](Module& m, uint64_t n) { return m.structure(StructType(raw(n)), r); }); }
HARNESS(add_union) { adding([](Module& m) -> auto& { return m.unions_; }, false, [](Module& m, uint64_t n) { UnionType t(raw(n), primitive_type<int32_t>()); return m.union_switch(t); }); }
HARNESS(add_union_rvalue) { bool r = nd<bool>(); adding([](Module& m) -> auto& { return m.unions_; }, r, [=](Module& m, uint64_t n) { return m.union_switch(UnionType(raw(n), primitive_type<int32_t>()), r); }); }
HARNESS(add_enum) { bool r = nd<bool>(); adding([](Module& m) -> auto& { return m.enumerations_32_; }, r, [=](Module& m, uint64_t n) { return m.enum_32(EnumerationType<uint32_t>(raw(n)), r); }); }
HARNESS(add_alias) { adding([](Module& m) -> auto& { return m.aliases_; }, false, [](Module& m, uint64_t n) { AliasType t(primitive_type<int32_t>(), raw(n)); return m.add_alias(t); }); }
HARNESS(add_alias_rvalue) { adding([](Module& m) -> auto& { return m.aliases_; }, false, [](Module& m, uint64_t n) { return m.add_alias(AliasType(primitive_type<int32_t>(), raw(n))); }); }
HARNESS(create_alias) { adding([](Module& m) -> auto& { return m.aliases_; }, false, [](Module& m, uint64_t n) { return m.create_alias(DynamicType::Ptr(primitive_type<int32_t>()), XName::of(n)); }); }
HARNESS(add_constant) { bool r = nd<bool>(); adding([](Module& m) -> auto& { return m.constants_; }, r, [=](Module& m, uint64_t n) { DynamicData v(primitive_type<int32_t>()); m.constants_types_.key = n; bool ok = m.create_constant(XName::of(n), v, r, nd<bool>()); if(ok) ASSERT(m.constants_.cell->second.type().kind() == TypeKind::INT_32_TYPE, "the constant is the one given"); return ok; }); }
#endif
