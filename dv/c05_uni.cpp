// C05: conversion of unions: discriminator and selected member, between unions that declare the same labels.
#include "uni.hpp"
template<class D, class E> struct Two
{
    Uni<D>& u; Opaque a, b; UnionType type; P mem;
    Two(Uni<D>& x) : u(x), a(any_id(), TypeKind::SEQUENCE_TYPE), b(any_id(), TypeKind::INT_32_TYPE), type("T", primitive_type<E>()), mem(nullptr)
    {
        for(auto l : u.l) ASSUME(int64_t(E(l)) == int64_t(l) && Uni<E>::usable(E(l))); const DynamicType& s = a; const DynamicType& t = b; std::vector<E> l{E(u.l[0]), E(u.l[1]), E(u.l[2])};
        if(u.v == 0) { type.add_case_member(std::vector<E>{l[0], l[1]}, "a", s); type.add_case_member(std::vector<E>{l[2]}, "b", t); }
        else if(u.v == 1) { type.add_case_member(std::vector<E>{l[0]}, "a", s); type.add_case_member(std::vector<E>{l[1], l[2]}, "b", t, true); }
        else { type.add_case_member(std::vector<E>{l[0], l[1]}, "a", s); type.add_case_member(std::vector<E>(), "b", t, true); }
        mem = new uint8_t[type.memory_size()];
    }
    Opaque& m(int k) { return k == 0 ? a : b; }
};
template<class D, class E> void convert(int v, bool alias)
{
    auto& u = *new Uni<D>(v, primitive_type<D>()); auto& w = *new Two<D, E>(u); u.state(); ASSUME(uint32_t(__xt_uf2("compat", w.a.id_, u.a.id_)) != ~0u && uint32_t(__xt_uf2("compat", w.b.id_, u.b.id_)) != ~0u); ASSUME(w.b.id_ == u.b.id_);
    if(alias) { auto& x = *new AliasType(u.type, "x"); auto& y = *new AliasType(x, "y"); w.type.copy_instance_from_type(w.mem, u.mem, y); } else w.type.copy_instance_from_type(w.mem, u.mem, u.type);
    E now; memcpy(&now, w.mem, sizeof(E)); P at = w.mem + sizeof(E);
    if(u.sel >= 0) { ASSERT(__xt_live(w.m(u.sel).id_, at), "the member of the converted union is constructed"); ASSERT(__xt_val(w.m(u.sel).id_, at) == __xt_v_conv(w.m(u.sel).id_, u.first(), u.m(u.sel).id_), "the selected member is converted"); if(v != 2 || u.sel == 0) ASSERT(int64_t(now) == int64_t(u.disc), "the discriminator is carried over"); else ASSERT(now == Uni<E>::dflt(), "the default stays selected"); }
    else { ASSERT(w.type.labels_.count(w.type.current_label(primitive_type<E>(), w.mem)) == 0, "a union without selection converts to one without"); ASSERT(!__xt_live(w.a.id_, at), "no member is constructed when none is active"); }
    u.unchanged(); w.type.destroy_instance(w.mem); delete[] w.mem; u.release();
}
HARNESS(union_same) { convert<int32_t, int32_t>(0, false); } HARNESS(union_def) { convert<int32_t, int32_t>(1, false); } HARNESS(union_nolabel) { convert<int32_t, int32_t>(2, false); } HARNESS(union_wider) { convert<int16_t, int64_t>(0, false); } HARNESS(union_narrower) { convert<int32_t, int8_t>(1, false); } HARNESS(union_wider_def) { convert<uint8_t, uint32_t>(2, false); } HARNESS(union_alias) { convert<int32_t, int32_t>(0, true); }
