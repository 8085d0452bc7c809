// C17: types are held by value: the original of a part is extended, renamed and destroyed, and what was built from it stays.
#include "xtd.hpp"
// a structure with one member of an arbitrary type, or such a structure owned by a DynamicType::Ptr (not for the creation of data, which shares an owned type);
// the original object is changed and goes away
struct Org
{
    Opaque* m; StructType* t; uint64_t id; size_t size; DynamicType::Ptr* own;
    Org(bool owned = false) : m(new Opaque(any_id(), any_kind())), t(new StructType("T")), id(m->id_), own(nullptr)
    {
        reflexive(id); t->add_member("m", static_cast<const DynamicType&>(*m)); size = t->memory_size();
        if(owned) { own = new DynamicType::Ptr(*t); delete t; t = const_cast<StructType*>(static_cast<const StructType*>(own->get())); }
    }
    StructType& get() { return *t; }
    void spoil() { bool grow = nd<bool>(), rename = nd<bool>(); if(grow) { Opaque o(any_id(), any_kind()); t->add_member("later", static_cast<const DynamicType&>(o)); } if(rename) t->name("other"); if(own) delete own; else delete t; delete m; t = nullptr; m = nullptr; }
    void held(const DynamicType& d)
    {
        ASSERT(d.kind() == TypeKind::STRUCTURE_TYPE, "the held type keeps its kind"); const StructType& s = static_cast<const StructType&>(d);
        ASSERT(s.members().size() == 1 && s.has_member("m") && !s.has_member("later"), "the held type keeps its members"); ASSERT(s.memory_size() == size, "the held type keeps its size"); ASSERT(s.name() == "T", "the held type keeps its name"); ASSERT(Opaque::id(s.member(size_t(0)).type()) == id, "the held type keeps the types of its members");
    }
    bool is_default(const ReadableDynamicDataRef& d) { held(d.type()); ReadableDynamicDataRef v = d["m"]; return Opaque::id(v.type()) == id && __xt_val(id, v.instance_) == __xt_v_default(id); }
};
HARNESS(member) { Org o(nd<bool>()); StructType t("U"); bool direct = nd<bool>(); if(direct) t.add_member("x", o.get()); else t.add_member(Member("x", o.get())); o.spoil(); o.held(t.member("x").type()); ASSERT(t.memory_size() == o.size, "a structure keeps its size"); DynamicData d(t), e(d); ASSERT(o.is_default(d["x"]) && o.is_default(e[0]), "data of the type has the member as it was"); }
HARNESS(member_later) { Org o; StructType t("U"); t.add_member("x", o.get()); DynamicData d(t); Opaque q(any_id(), any_kind()); t.add_member("y", static_cast<const DynamicType&>(q)); o.spoil(); ASSERT(d.size() == 1 && rejects([&]{ d["y"]; }), "data keeps the type it was created with"); ASSERT(o.is_default(d["x"]), "data keeps its members"); DynamicData e(d); ASSERT(e.size() == 1 && o.is_default(e["x"]), "a copy has the type of its source"); }
HARNESS(parent) { Org o(nd<bool>()); StructType t("U", o.t); o.spoil(); ASSERT(t.members().size() == 1 && t.has_member("m") && t.memory_size() == o.size && Opaque::id(t.member("m").type()) == o.id, "inherited members are kept"); o.held(t.parent()); DynamicData d(t); ASSERT(__xt_val(o.id, d["m"].instance_) == __xt_v_default(o.id), "data of the type has the inherited members"); }
HARNESS(sequence) { Org o(nd<bool>()); SequenceType t(o.get(), 3); o.spoil(); o.held(t.content_type()); DynamicData d(t); d.resize(2); ASSERT(o.is_default(d[1]) && o.is_default(d[0]), "elements are of the type as it was"); DynamicData e(d); ASSERT(e.size() == 2 && o.is_default(e[1]), "elements are of the type as it was"); }
HARNESS(array) { Org o(nd<bool>()); ArrayType t(o.get(), 2); o.spoil(); o.held(t.content_type()); ASSERT(t.memory_size() == 2 * o.size, "an array keeps its size"); DynamicData d(t); ASSERT(o.is_default(d[0]) && o.is_default(d[1]), "elements are of the type as it was"); }
HARNESS(pair_first) { Org o(nd<bool>()); Opaque q(any_id(), any_kind()); PairType t(o.get(), q); o.spoil(); o.held(t.first()); ASSERT(Opaque::id(t.second()) == q.id_, "the other type is kept"); ASSERT(t.memory_size() == o.size + q.memory_size(), "a pair keeps its size"); DynamicData d(t); ASSERT(o.is_default(d[0]), "data of the type has the element as it was"); }
HARNESS(pair_second) { Org o(nd<bool>()); Opaque q(any_id(), any_kind()); PairType t(q, o.get()); o.spoil(); o.held(t.second()); ASSERT(Opaque::id(t.first()) == q.id_, "the other type is kept"); DynamicData d(t); ASSERT(o.is_default(d[1]), "data of the type has the element as it was"); }
HARNESS(map_key) { Org o(nd<bool>()); Opaque q(any_id(), any_kind()); MapType t(o.get(), q, 3); o.spoil(); const PairType& p = static_cast<const PairType&>(t.content_type()); o.held(p.first()); ASSERT(Opaque::id(p.second()) == q.id_, "the other type is kept"); DynamicData d(t); ASSERT(d.size() == 0, "a new map is empty"); }
HARNESS(map_value) { Org o(nd<bool>()); Opaque q(any_id(), any_kind()); MapType t(q, o.get(), 3); o.spoil(); const PairType& p = static_cast<const PairType&>(t.content_type()); o.held(p.second()); ASSERT(Opaque::id(p.first()) == q.id_, "the other type is kept"); DynamicData d(t), e(d); ASSERT(d.size() == 0 && e.size() == 0, "a new map is empty"); }
HARNESS(alias) { Org o(nd<bool>()); AliasType t(o.get(), "A"); o.spoil(); o.held(t.get()); o.held(t.rget()); ASSERT(t.name() == "A" && t.memory_size() == o.size, "an alias keeps its target"); DynamicData d(t); ASSERT(o.is_default(d), "data of the alias is of the target as it was"); }
HARNESS(alias_alias) { Org o(nd<bool>()); AliasType* a = new AliasType(o.get(), "A"); AliasType t(*a, "B"); o.spoil(); delete a; o.held(t.rget()); DynamicData d(t), e(d); ASSERT(o.is_default(d) && o.is_default(e), "data of the alias is of the target as it was"); }
HARNESS(alias_element) { Org o(nd<bool>()); SequenceType* t; { AliasType a(o.get(), "A"); t = new SequenceType(a, 0); } o.spoil(); DynamicData d(*t); delete t; d.resize(1); ASSERT(o.is_default(d[0]), "elements are of the type as it was"); }
HARNESS(data) { Org o; DynamicData d(o.get()); o.spoil(); ASSERT(d.size() == 1 && rejects([&]{ d["later"]; }) && rejects([&]{ d[1]; }), "data keeps the type it was created with"); ASSERT(o.is_default(d), "data keeps its members"); DynamicData e(d); ASSERT(o.is_default(e), "a copy has the type of its source"); e = d; ASSERT(o.is_default(e), "an assigned data has its type"); }
HARNESS(data_ref) { Org o; DynamicData* d = new DynamicData(o.get()); o.spoil(); DynamicData e(d->ref()), f(d->cref()); delete d; ASSERT(o.is_default(e) && o.is_default(f), "a copy has the type of its source"); }
HARNESS(data_convert) { Org o; DynamicData d(o.get()); DynamicData e(d, o.get()); o.spoil(); ASSERT(o.is_default(e) && o.is_default(d), "a converted data keeps its type"); }
HARNESS(pointer) { Org o(nd<bool>()); DynamicType::Ptr* p = new DynamicType::Ptr(o.get()); DynamicType::Ptr q(*p), r, s(std::move(*p)); r = q; o.spoil(); delete p; o.held(*q); o.held(*r); o.held(*s); }
HARNESS(copied_type) { Org o(nd<bool>()); StructType t(o.get()); o.spoil(); o.held(t); DynamicData d(t); ASSERT(o.is_default(d), "a copied type is kept"); }
HARNESS(clone) { Org o(nd<bool>()); std::shared_ptr<DynamicType> t = o.get().clone(); o.spoil(); o.held(*t); DynamicData d(*t); t.reset(); ASSERT(o.is_default(d), "data keeps a type that is owned by a pointer"); }
HARNESS(extended_copy) { Org o; StructType t(o.get()), u("U"); u.add_member("x", t); Opaque q(any_id(), any_kind()); t.add_member("later", static_cast<const DynamicType&>(q)); o.held(o.get()); o.held(u.member("x").type()); ASSERT(t.members().size() == 2, "a copy is extended"); o.spoil(); ASSERT(t.members().size() == 2 && t.has_member("later") && Opaque::id(t.member("m").type()) == o.id && Opaque::id(t.member("later").type()) == q.id_, "a copy keeps its members"); }
HARNESS(nested) { Org o(nd<bool>()); StructType* u = new StructType("U"); u->add_member("x", o.get()); SequenceType* q = new SequenceType(*u, 0); ArrayType t(*q, 2); u->add_member("later", o.get()); delete u; delete q; o.spoil(); const StructType& in = static_cast<const StructType&>(static_cast<const SequenceType&>(t.content_type()).content_type()); ASSERT(in.members().size() == 1 && in.memory_size() == o.size, "a nested type is kept"); o.held(in.member("x").type()); DynamicData d(t); d[1].resize(1); ASSERT(o.is_default(d[1][0]["x"]), "data of the type has the parts as they were"); }
HARNESS(union_case) { Org o(nd<bool>()); UnionType* u = new UnionType("U", primitive_type<int32_t>()); u->add_case_member<int32_t>({1}, "x", o.get(), false); bool copy = nd<bool>(); UnionType t(*u); if(copy) u->add_case_member<int32_t>({2}, "later", o.get(), false); o.spoil(); delete u; ASSERT(t.members().size() == 2 && !t.has_member("later"), "a union keeps its members"); o.held(t.member("x").type()); DynamicData d(t); ASSERT(o.is_default(d["x"]), "data of the type has the member as it was"); ASSERT(d.d().value<int32_t>() == 1, "the label is kept"); }
HARNESS(union_member) { Org o(nd<bool>()); UnionType* u = new UnionType("U", primitive_type<int32_t>()); u->add_case_member<int32_t>({1}, "x", o.get(), false); StructType t("S"); t.add_member("u", *u); size_t n = u->memory_size(); Opaque q(any_id(), any_kind()); u->add_case_member<int32_t>({2}, "later", static_cast<const DynamicType&>(q), true); delete u; o.spoil(); ASSERT(t.memory_size() == n, "a structure keeps its size"); const UnionType& h = static_cast<const UnionType&>(t.member("u").type()); ASSERT(h.members().size() == 2 && !h.has_member("later") && h.memory_size() == n, "the held union keeps its members"); DynamicData d(t); ASSERT(o.is_default(d["u"]["x"]), "data of the type has the member as it was"); ASSERT(rejects([&]{ d["u"]["later"]; }), "a member added later is unknown to data"); }
template<class C> struct OrgE
{
    EnumerationType<C>* e; C a, b; DynamicType::Ptr* own;
    OrgE(bool owned = false) : e(new EnumerationType<C>("E")), a(nd<C>()), b(nd<C>()), own(nullptr) { ASSUME(b > a); e->add_enumerator("A", a); if(owned) { own = new DynamicType::Ptr(*e); delete e; e = const_cast<EnumerationType<C>*>(static_cast<const EnumerationType<C>*>(own->get())); } }
    void spoil() { e->add_enumerator("B", b); if(own) delete own; else delete e; e = nullptr; }
    void held(const DynamicType& d) { ASSERT(d.kind() == TypeKind::ENUMERATION_TYPE && d.memory_size() == sizeof(C), "the held type is an enumeration"); const EnumerationType<C>& h = static_cast<const EnumerationType<C>&>(d); ASSERT(h.enumerators().size() == 1 && h.value("A") == a && !h.has_enumerator("B") && h.is_allowed_value(a) && !h.is_allowed_value(b), "the held enumeration keeps its enumerators"); }
    void data(WritableDynamicDataRef d) { held(d.type()); ASSERT(rejects([&]{ d = b; }), "an enumerator added later is refused"); d = a; ASSERT(d.value<C>() == a, "a declared enumerator is accepted"); }
};
template<class C> void e_data() { OrgE<C> o; DynamicData d(*o.e); o.spoil(); o.data(d.ref()); }
template<class C> void e_member() { OrgE<C> o(nd<bool>()); StructType t("S"); t.add_member("x", *o.e); o.spoil(); o.held(t.member("x").type()); DynamicData d(t); o.data(d["x"]); }
template<class C> void e_element() { OrgE<C> o(nd<bool>()); SequenceType t(*o.e, 2); o.spoil(); o.held(t.content_type()); DynamicData d(t); d.resize(1); o.data(d[0]); }
template<class C> void e_alias() { OrgE<C> o(nd<bool>()); AliasType t(*o.e, "A"); o.spoil(); o.held(t.rget()); DynamicData d(t); o.data(d.ref()); }
template<class C> void e_array() { OrgE<C> o(nd<bool>()); ArrayType t(*o.e, 2); o.spoil(); o.held(t.content_type()); DynamicData d(t); o.data(d[1]); }
#define ENUM(C, N) HARNESS(enum_data_##N) { e_data<C>(); } HARNESS(enum_member_##N) { e_member<C>(); } HARNESS(enum_element_##N) { e_element<C>(); } HARNESS(enum_alias_##N) { e_alias<C>(); } HARNESS(enum_array_##N) { e_array<C>(); }
ENUM(uint8_t, 8) ENUM(uint16_t, 16) ENUM(uint32_t, 32)
HARNESS(enum_disc) { OrgE<uint32_t> o(nd<bool>()); ASSUME((o.a < 0x7ffffffe) & (o.b < 0x7ffffffe)); UnionType t("U", *o.e); t.add_case_member<uint32_t>({o.a}, "x", primitive_type<int8_t>(), false); o.spoil(); o.held(t.member(size_t(0)).type()); DynamicData d(t); d["x"] = int8_t(7); ASSERT(d.d().value<uint32_t>() == o.a, "the label is kept"); ASSERT(rejects([&]{ t.add_case_member<uint32_t>({o.b}, "y", primitive_type<int8_t>(), false); }), "an enumerator added later is no label"); }
