// C07: the discriminator of a union denotes its active member, over any member types and labels.
#include "uni.hpp"
template<class D> void create(int v, const DynamicType& d, bool orders = false) { Uni<D>& u = *new Uni<D>(v, d, orders); u.reserve(); u.type.construct_instance(u.mem); u.corresponds(v == 0 ? -1 : 1); if(v) ASSERT(u.val(1) == __xt_v_default(u.b.id_), "a new union holds the default value of its default member"); u.release(); }
template<class D> void by_name(int v, const DynamicType& d, bool orders = false)
{
    Uni<D>& u = *new Uni<D>(v, d, orders); u.state(); int k = nd<bool>();
    ASSERT(u.type.select_case(u.mem, u.name(k)), "a member can be selected by name"); u.corresponds(k);
    if(k == u.sel) ASSERT(u.now() == u.disc && u.val(k) == u.first(), "selecting the active member changes nothing");
    else ASSERT(u.val(k) == __xt_v_default(u.m(k).id_), "a newly selected member has its default value");
    u.release();
}
template<class D> void by_value(int v, const DynamicType& d, bool orders = false)
{
    Uni<D>& u = *new Uni<D>(v, d, orders); u.state(); D x = nd<D>(); int o = u.owner(x); bool ok = o >= 0 && (u.sel < 0 || o == u.sel);
    bool r = rejects([&]{ u.type.select_disc(u.mem, int64_t(x)); }); ASSERT(r == !ok, "a discriminator value is accepted exactly when it is a label of the active member, or any label when none is active");
    if(!ok) { u.unchanged(); u.release(); return; }
    ASSERT(u.now() == x, "the accepted value is the discriminator"); u.corresponds(o);
    if(u.sel >= 0) ASSERT(u.val(o) == u.first(), "the active member keeps its value"); else ASSERT(u.val(o) == __xt_v_default(u.m(o).id_), "a newly selected member has its default value");
    u.release();
}
template<class D> void by_ref(int v, const DynamicType& d, bool orders = false)
{
    Uni<D>& u = *new Uni<D>(v, d, orders); u.state(); D x = nd<D>(); int o = u.owner(x); bool ok = o >= 0 && (u.sel < 0 || o == u.sel);
    bool r = rejects([&]{ u.type.select_disc(primitive_type<D>(), u.mem, reinterpret_cast<P>(&x)); }); ASSERT(r == !ok, "a discriminator data is accepted exactly when its value is a label of the active member, or any label when none is active");
    if(!ok) u.unchanged(); else { ASSERT(u.now() == x, "the accepted value is the discriminator"); u.corresponds(o); if(u.sel >= 0) ASSERT(u.val(o) == u.first(), "the active member keeps its value"); }
    u.release();
}
template<class D> void reading(int v, const DynamicType& d, bool orders = false)
{
    Uni<D>& u = *new Uni<D>(v, d, orders); u.state(); const Member* m = nullptr; bool r = rejects([&]{ m = &static_cast<const UnionType&>(u.type).get_current_selection(static_cast<CP>(u.mem)); });
    ASSERT(r == (u.sel < 0), "the current case is available exactly when a member is selected"); if(!r) ASSERT(m == &u.type.members()[1 + u.sel], "the current case is the active member");
    u.unchanged(); u.release();
}
template<class D> void dfl(int v, const DynamicType& d, bool orders = false) { Uni<D>& u = *new Uni<D>(v, d, orders); u.state(); bool r = u.type.select_default(u.mem); ASSERT(r == (v != 0), "the default member can be selected exactly when there is one"); u.corresponds(v ? 1 : u.sel); if(v && u.sel == 0) ASSERT(u.val(1) == __xt_v_default(u.b.id_), "a newly selected member has its default value"); if(v && u.sel == 1) ASSERT(u.val(1) == u.first(), "selecting the active member keeps its value"); if(!v) u.unchanged(); u.release(); }
#define FOR(D, T, E, V, O) HARNESS(create_##T##V) { create<D>(V, E, O); } HARNESS(by_name_##T##V) { by_name<D>(V, E, O); } HARNESS(by_value_##T##V) { by_value<D>(V, E, O); } HARNESS(by_ref_##T##V) { by_ref<D>(V, E, O); } HARNESS(reading_##T##V) { reading<D>(V, E, O); }
#define ALL(D, T) FOR(D, T, primitive_type<D>(), 0, false)
ALL(char, char) ALL(char16_t, char16) ALL(wchar_t, wchar) ALL(int8_t, int8) ALL(uint8_t, uint8) ALL(int16_t, int16) ALL(uint16_t, uint16) FOR(int32_t, int32, primitive_type<int32_t>(), 0, true) ALL(uint32_t, uint32) ALL(int64_t, int64) ALL(uint64_t, uint64)
FOR(int32_t, int32, primitive_type<int32_t>(), 1, true) FOR(int32_t, int32, primitive_type<int32_t>(), 2, true) FOR(uint8_t, uint8, primitive_type<uint8_t>(), 1, false) FOR(int64_t, int64, primitive_type<int64_t>(), 2, false)
HARNESS(dfl_0) { dfl<int32_t>(0, primitive_type<int32_t>()); } HARNESS(dfl_1) { dfl<int32_t>(1, primitive_type<int32_t>()); } HARNESS(dfl_2) { dfl<int32_t>(2, primitive_type<int32_t>()); }
HARNESS(by_name_alias) { AliasType s(primitive_type<int16_t>(), "s"), t(s, "t"); by_name<int16_t>(0, t); }
HARNESS(by_value_alias) { AliasType s(primitive_type<int16_t>(), "s"), t(s, "t"); by_value<int16_t>(0, t); }
