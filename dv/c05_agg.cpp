// C05: conversion of arrays, pairs and aliased data, over any element types.
#include "agg.hpp"
HARNESS(arr_convert)
{
    Arr q; TypeKind k = any_kind(); uint64_t id = any_id(); uint32_t d = Arr::dim();
    // non constructed types are determined by their kind
    ASSUME((k != q.elem.kind()) | (__xt_v_ctor(id)) | (id == q.id)); ASSUME((id != q.id) | (k == q.elem.kind()));
    Arr r(id, k, d); r.raw();
    uint32_t j = nd<uint32_t>(); ASSUME(j < d); __xt_index(j); bool in = j < q.n; uint64_t o = in ? q.val(j) : 0;
    r.type.copy_instance_from_type(r.mem, q.mem, q.type);
    ASSERT(__xt_live(id, r.at(j)), "every element of the converted array is constructed");
    if(in) { ASSERT(r.val(j) == __xt_v_conv(id, o, q.id), "each element is the conversion of the element at the same index"); ASSERT(q.val(j) == o, "the source of a conversion keeps its values"); }
    else ASSERT(r.val(j) == __xt_v_default(id), "elements that the source does not have take the default value");
    r.type.destroy_instance(r.mem); q.type.destroy_instance(q.mem);
}
HARNESS(arr_convert_alias)
{
    Arr q; AliasType a(q.type, "a"), b(a, "b"); Arr r(q.id, q.elem.kind(), q.n); r.raw();
    uint32_t j = nd<uint32_t>(); ASSUME(j < q.n); __xt_index(j); uint64_t o = q.val(j);
    r.type.copy_instance_from_type(r.mem, q.mem, b); ASSERT(r.val(j) == o, "an alias of the source type converts as the type itself");
}
HARNESS(arr_convert_refused)
{
    Arr r(any_id(), any_kind(), Arr::dim()); r.raw(); Opaque o(any_id(), any_kind()); ASSUME(o.kind() != TypeKind::ARRAY_TYPE); P p = __xt_slots(o.id_, 1); uint64_t x = __xt_val(o.id_, p);
    ASSERT(rejects([&]{ r.type.copy_instance_from_type(r.mem, p, o); }), "a data that is not an array is refused"); ASSERT(__xt_val(o.id_, p) == x, "the source of a refused conversion keeps its value");
}
HARNESS(pair_convert)
{
    Par q; Par r(any_id(), any_kind(), any_id(), any_kind()); r.raw(); uint64_t x = q.v1(), y = q.v2();
    r.type.copy_instance_from_type(r.mem, q.mem, q.type);
    ASSERT(r.v1() == __xt_v_conv(r.a.id_, x, q.a.id_), "the first part of a pair is the conversion of the first part"); ASSERT(r.v2() == __xt_v_conv(r.b.id_, y, q.b.id_), "the second part of a pair is the conversion of the second part");
    ASSERT(q.v1() == x && q.v2() == y, "the source of a conversion keeps its values");
}
HARNESS(pair_convert_alias)
{
    Par q; AliasType a(q.type, "a"), b(a, "b"); Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); r.raw(); uint64_t x = q.v1(), y = q.v2();
    r.type.copy_instance_from_type(r.mem, q.mem, b); ASSERT(r.v1() == x && r.v2() == y, "an alias of the source type converts as the type itself");
}
HARNESS(pair_convert_refused)
{
    Par r(any_id(), any_kind(), any_id(), any_kind()); r.raw(); Opaque o(any_id(), any_kind()); ASSUME(o.kind() != TypeKind::PAIR_TYPE); P p = __xt_slots(o.id_, 1); uint64_t x = __xt_val(o.id_, p);
    ASSERT(rejects([&]{ r.type.copy_instance_from_type(r.mem, p, o); }), "a data that is not a pair is refused"); ASSERT(__xt_val(o.id_, p) == x, "the source of a refused conversion keeps its value");
}
HARNESS(alias_convert)
{
    Opaque o(any_id(), any_kind()), s(any_id(), any_kind()); AliasType a(o, "a"), b(a, "b"); P p = __xt_slots(s.id_, 1), r = new uint8_t[b.memory_size()]; uint64_t x = __xt_val(s.id_, p);
    b.copy_instance_from_type(r, p, s); ASSERT(__xt_val(o.id_, r) == __xt_v_conv(o.id_, x, s.id_), "a conversion to an alias is the conversion to its type");
}
