// C05: conversion of sequences, over any two element types.
#include "seq.hpp"
HARNESS(seq_convert)
{
    Seq q; TypeKind k = any_kind(); uint64_t id = any_id();
    Seq r(id, k, nd<uint32_t>(), 0);
    // non constructed types are determined by their kind
    ASSUME((k != q.elem.kind()) | (__xt_v_ctor(id)) | (id == q.id));
    ASSUME((id != q.id) | (k == q.elem.kind()));
    uint32_t n = q.size(), j = nd<uint32_t>(), m = r.bounded() && r.type.bounds_ < n ? r.type.bounds_ : n; uint64_t o = 0; bool any = m > 0;
    if(any) { ASSUME(j < m); __xt_index(j); o = q.val(j); }
    r.type.copy_instance_from_type(r.mem, q.mem, q.type);
    ASSERT(r.size() == m, "a converted sequence has the size of its source, truncated to its bound");
    if(any) { ASSERT(r.val(j) == __xt_v_conv(id, o, q.id), "each element is the conversion of the element at the same index"); ASSERT(q.val(j) == o, "the source of a conversion keeps its values"); }
    r.invariant(); q.invariant();
    r.type.destroy_instance(r.mem); q.type.destroy_instance(q.mem);
}
HARNESS(seq_convert_alias)
{
    Seq q; AliasType a(q.type, "a"); AliasType b(a, "b"); Seq r(q.id, q.elem.kind(), nd<uint32_t>(), 0);
    uint32_t n = q.size(), j = nd<uint32_t>(), m = r.bounded() && r.type.bounds_ < n ? r.type.bounds_ : n; uint64_t o = 0; bool any = m > 0;
    if(any) { ASSUME(j < m); __xt_index(j); o = q.val(j); }
    r.type.copy_instance_from_type(r.mem, q.mem, b);
    ASSERT(r.size() == m, "an alias of the source type converts as the type itself");
    if(any) ASSERT(r.val(j) == o, "an alias of the source type converts as the type itself");
}
HARNESS(seq_convert_refused)
{
    Seq r(any_id(), any_kind(), nd<uint32_t>(), 0); Opaque o(any_id(), any_kind());
    ASSUME(o.kind() != TypeKind::SEQUENCE_TYPE); P p = __xt_slots(o.id_, 1); uint64_t x = __xt_val(o.id_, p);
    ASSERT(rejects([&]{ r.type.copy_instance_from_type(r.mem, p, o); }), "a data that is not a sequence is refused"); ASSERT(__xt_val(o.id_, p) == x, "the source of a refused conversion keeps its value");
}
