// C05: conversion of structures over any member types: position by position, missing members default, further members ignored.
#include "str.hpp"
template<int N, int M> void conv(bool alias)
{
    Str<N> a; Str<M> b; for(int k = 0; k < N && k < M; ++k) { ASSUME((a.m(k).kind() != b.m(k).kind()) | __xt_v_ctor(a.id(k)) | (a.id(k) == b.id(k))); ASSUME((a.id(k) != b.id(k)) | (a.m(k).kind() == b.m(k).kind())); }
    if(N == 1 && M != 1) return;
    a.fill(); b.reserve();
    if(alias) { AliasType x(a.type, "x"), y(x, "y"); b.type.copy_instance_from_type(b.mem, a.mem, y); } else b.type.copy_instance_from_type(b.mem, a.mem, a.type);
    for(int k = 0; k < M; ++k)
    {
        ASSERT(b.live(k), "every member of the converted structure is constructed");
        if(k < N) ASSERT(b.val(k) == __xt_v_conv(b.id(k), a.first(k), a.id(k)), "each member is the conversion of the member at the same position");
        else ASSERT(b.val(k) == __xt_v_default(b.id(k)), "members that the source does not have take the default value");
    }
    for(int k = 0; k < N; ++k) ASSERT(a.val(k) == a.first(k), "the source of a conversion keeps its values");
    b.release(); a.release();
}
HARNESS(struct_11) { conv<1, 1>(false); }
HARNESS(struct_22) { conv<2, 2>(false); }
HARNESS(struct_33) { conv<3, 3>(false); }
HARNESS(struct_23) { conv<2, 3>(false); }
HARNESS(struct_32) { conv<3, 2>(false); }
HARNESS(struct_22_alias) { conv<2, 2>(true); }
HARNESS(struct_23_alias) { conv<2, 3>(true); }
// a one member structure stands for its member
HARNESS(one_member_from_value)
{
    Str<1> b; Opaque o(any_id(), any_kind()); P p = __xt_slots(o.id_, 1); uint64_t x = __xt_val(o.id_, p); b.reserve(); b.type.copy_instance_from_type(b.mem, p, o);
    ASSERT(b.live(0) && b.val(0) == __xt_v_conv(b.id(0), x, o.id_), "a one-member structure takes the conversion of the value"); ASSERT(__xt_val(o.id_, p) == x, "the source of a conversion keeps its values"); b.release();
}
HARNESS(one_member_from_alias)
{
    Str<1> b; Opaque o(any_id(), any_kind()); AliasType al(o, "x"), am(al, "y"); P p = __xt_slots(o.id_, 1); uint64_t x = __xt_val(o.id_, p); b.reserve(); b.type.copy_instance_from_type(b.mem, p, am);
    ASSERT(b.live(0) && b.val(0) == __xt_v_conv(b.id(0), x, o.id_), "a one-member structure takes the conversion of the aliased value"); b.release();
}
HARNESS(struct_refused)
{
    Str<2> b; Opaque o(any_id(), any_kind()); ASSUME(o.kind() != TypeKind::STRUCTURE_TYPE); P p = __xt_slots(o.id_, 1); uint64_t x = __xt_val(o.id_, p); b.reserve();
    ASSERT(rejects([&]{ b.type.copy_instance_from_type(b.mem, p, o); }), "a data that is not a structure is refused"); ASSERT(__xt_val(o.id_, p) == x, "the source of a refused conversion keeps its value");
    for(int k = 0; k < 2; ++k) if(__xt_v_ctor(b.id(k))) ASSERT(!b.live(k), "nothing is constructed by a refused conversion");
}
