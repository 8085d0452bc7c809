// C10: enumerations: declaration, lookup and assignment, over any declared values.
#include "xtd.hpp"
static const char* NAME[] = {"A", "B", "C"};
// an enumeration of n enumerators with arbitrary increasing values
template<class C> struct En { EnumerationType<C> type; C v[3]; int n; En(int k) : type("E"), n(k) { for(int i = 0; i < n; ++i) { v[i] = nd<C>(); if(i) ASSUME(v[i] > v[i - 1]); type.add_enumerator(NAME[i], v[i]); } }
    bool declared(C x) const { bool r = false; for(int i = 0; i < n; ++i) r |= v[i] == x; return r; }
    void as_declared() { ASSERT(type.enumerators().size() == size_t(n), "the enumerators are the declared ones"); for(int i = 0; i < n; ++i) { ASSERT(type.has_enumerator(NAME[i]) && type.value(NAME[i]) == v[i], "an enumerator found by name has the declared value"); ASSERT(type.enumerator(v[i]) == NAME[i], "an enumerator found by value has the declared name"); } } };
template<class C> void declare()
{
    EnumerationType<C> e("E"); C v[3]; int n = 0; bool full = false; C next = 0;
    for(int i = 0; i < 3; ++i)
    {
        C x = nd<C>(); bool implicit = nd<bool>(); if(implicit) x = next; bool ok = !full && x >= next;
        bool no = rejects([&]{ if(implicit) e.add_enumerator(NAME[i]); else e.add_enumerator(NAME[i], x); }); ASSERT(no == !ok, "an enumerator is accepted exactly when its value is larger than the ones before");
        if(no) { ASSERT(!e.has_enumerator(NAME[i]) && e.enumerators().size() == size_t(n), "a refused enumerator is not declared"); break; }
        v[n++] = x; full = x == C(~C(0)); next = x + 1;
    }
    for(int i = 0; i < n; ++i) { ASSERT(e.value(NAME[i]) == v[i] && e.enumerator(v[i]) == NAME[i] && e.is_allowed_value(v[i]), "a declared enumerator is found by name and value"); if(i) ASSERT(v[i] > v[i - 1], "values increase"); }
    ASSERT(e.enumerators().size() == size_t(n), "the enumerators are the declared ones");
}
template<class C> void repeated() { En<C> e(2); C x = nd<C>(); ASSERT(rejects([&]{ e.type.add_enumerator(NAME[nd<bool>()], x); }) && rejects([&]{ e.type.add_enumerator(NAME[nd<bool>()]); }), "a used name is refused"); e.as_declared(); C y = nd<C>(); bool ok = e.v[1] != C(~C(0)) && y > e.v[1]; ASSERT(rejects([&]{ e.type.add_enumerator("C", y); }) == !ok, "a refused name leaves the next value"); }
template<class C> void lookup() { En<C> e(3); e.as_declared(); C x = nd<C>(); ASSERT(e.type.is_allowed_value(x) == e.declared(x), "exactly the declared values are allowed"); if(!e.declared(x)) ASSERT(e.type.enumerator(x) == "", "no enumerator has an undeclared value"); ASSERT(!e.type.has_enumerator("Z") && rejects([&]{ e.type.value("Z"); }), "an unknown name is refused"); ASSERT(e.type.default_value() == e.v[0], "the default is the first enumerator"); EnumerationType<C> d("D"); ASSERT(d.default_value() == 0 && d.enumerators().empty(), "an enumeration starts empty"); }
template<class C> void assign()
{
    En<C> e(3); AliasType s(e.type, "s"); DynamicData d(nd<bool>() ? static_cast<const DynamicType&>(e.type) : static_cast<const DynamicType&>(s)); C x = nd<C>(), y = nd<C>(); ASSUME(e.declared(x)); d.value<C>(x); ASSERT(d.value<C>() == x, "a declared value is read back");
    bool no = nd<bool>() ? rejects([&]{ d = y; }) : rejects([&]{ d.ref().template value<C>(y); }); ASSERT(no == !e.declared(y), "a value is accepted exactly when it is declared"); ASSERT(d.value<C>() == (no ? x : y), "a refused value leaves the data as it was"); ASSERT(d.template cast<uint64_t>() == uint64_t(no ? x : y), "cast gives the value");
}
template<class C, class W> void width() { En<C> e(1); DynamicData d(e.type); d = e.v[0]; W w = nd<W>(); ASSERT(rejects([&]{ d.value<W>(w); }) && rejects([&]{ d.value<W>(); }), "a value of another width is refused"); ASSERT(d.value<C>() == e.v[0], "a refused value leaves the data as it was"); }
template<class C> void copied() { En<C> e(2); DynamicType::Ptr p(e.type); EnumerationType<C> f("F"); const EnumerationType<C>& q = static_cast<const EnumerationType<C>&>(*p); C x = nd<C>(); ASSERT(q.is_allowed_value(x) == e.declared(x), "a copy of an enumeration allows the same values"); ASSERT(q.value("A") == e.v[0] && q.value("B") == e.v[1] && q.enumerators().size() == 2, "a copy of an enumeration has the same enumerators"); C y = nd<C>(); ASSUME(e.v[1] != C(~C(0)) && y > e.v[1]); e.type.add_enumerator("C", y); ASSERT(!q.has_enumerator("C") && !q.is_allowed_value(y), "a copy does not change with the original");
    EnumerationType<C>& g = const_cast<EnumerationType<C>&>(q); ASSERT(rejects([&]{ g.add_enumerator("Z", e.v[1]); }), "a copy keeps the next value"); g.add_enumerator("Z"); ASSERT(g.value("Z") == C(e.v[1] + 1), "a copy keeps the next value"); }
template<class C> void nested() { En<C> e(2); StructType t("T"); t.add_member("p", primitive_type<uint8_t>()); t.add_member("e", e.type); SequenceType q(e.type); DynamicData d(t), s(q); s.resize(2); C x = nd<C>(); C o = s[1].value<C>(); d["e"] = e.v[0];
    bool no = rejects([&]{ d["e"] = x; }); ASSERT(no == !e.declared(x), "a member accepts exactly the declared values"); ASSERT(d["e"].value<C>() == (no ? e.v[0] : x), "a refused value leaves the member as it was"); no = rejects([&]{ s[1] = x; }); ASSERT(no == !e.declared(x), "an element accepts exactly the declared values"); ASSERT(s[1].value<C>() == (no ? o : x) && s[0].value<C>() == o, "a refused value leaves the element as it was"); }
#define KIND(C, T) HARNESS(declare_##T) { declare<C>(); } HARNESS(repeated_##T) { repeated<C>(); } HARNESS(lookup_##T) { lookup<C>(); } HARNESS(assign_##T) { assign<C>(); } HARNESS(copied_##T) { copied<C>(); } HARNESS(nested_##T) { nested<C>(); }
KIND(uint8_t, uint8) KIND(uint16_t, uint16) KIND(uint32_t, uint32)
HARNESS(width_8_16) { width<uint8_t, uint16_t>(); } HARNESS(width_8_64) { width<uint8_t, uint64_t>(); } HARNESS(width_16_8) { width<uint16_t, uint8_t>(); } HARNESS(width_32_16) { width<uint32_t, int16_t>(); } HARNESS(width_32_float) { width<uint32_t, float>(); } HARNESS(width_32_64) { width<uint32_t, uint64_t>(); }
