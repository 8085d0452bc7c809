// C11: lifetime of the members of unions over any member types and labels.
#include "uni.hpp"
HARNESS(union_life) { auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); __xt_mark(); u.reserve(); u.type.construct_instance(u.mem); int k = nd<bool>(), j = nd<bool>(); u.type.select_case(u.mem, u.name(k)); u.corresponds(k); u.type.select_case(u.mem, u.name(j)); u.corresponds(j); u.release(); __xt_noleak(); }
HARNESS(union_destroy) { auto& u = *new Uni<int32_t>(nd<bool>(), primitive_type<int32_t>()); u.state(); u.type.destroy_instance(u.mem); if(__xt_v_ctor(u.a.id_)) ASSERT(!u.live(0), "the active member is destroyed"); delete[] u.mem; }
HARNESS(union_copy) { auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); u.state(); auto& w = *new Uni<int32_t>(u, 0); w.reserve(); w.type.copy_instance(w.mem, u.mem); u.release(); w.corresponds(u.sel); w.release(); }
HARNESS(union_move) { auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); u.state(); auto& w = *new Uni<int32_t>(u, 0); bool init = nd<bool>(); if(init) w.state(); else w.reserve(); w.type.move_instance(w.mem, u.mem, init); u.release(); w.release(); }
HARNESS(union_both)
{
    // both members with constructor, or none
    bool c = nd<bool>(); TypeKind k = c ? TypeKind::STRUCTURE_TYPE : TypeKind::INT_16_TYPE; auto& u = *new Uni<uint8_t>(0, primitive_type<uint8_t>(), any_id(), k, any_id(), k, false); u.state(); int j = nd<bool>(); u.type.select_case(u.mem, u.name(j)); u.corresponds(j); auto& w = *new Uni<uint8_t>(u, 0); w.state(); w.type.move_instance(w.mem, u.mem, true); u.release(); w.release();
}
HARNESS(union_data) { auto& u = *new Uni<int32_t>(1, primitive_type<int32_t>()); __xt_mark(); { DynamicData a(u.type), b(a); a["a"]; b = a; DynamicData c(std::move(b)); c["b"]; a = c; a = a; } __xt_noleak(); }
