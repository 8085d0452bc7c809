// C04: equality and hash of arrays, pairs and aliased data.
#include "agg.hpp"
HARNESS(arr_compare)
{
    Arr q; Arr b(q.id, q.elem.kind(), q.n); b.live();
    bool all = __xt_forall_eq(q.id, q.mem, b.mem, q.n);
    bool r = q.type.compare_instance(q.mem, b.mem);
    ASSERT(r == all, "arrays are equal exactly when all their elements are");
    uint32_t j = nd<uint32_t>(); if(r) { ASSUME(j < q.n); __xt_index(j); ASSERT(__xt_v_eq(q.id, q.val(j), b.val(j)), "elements of equal arrays are equal"); }
}
HARNESS(arr_hash)
{
    __xt_eqhash();
    Arr q; Arr b(q.id, q.elem.kind(), q.n); b.live(); __xt_index(0); ASSUME(__xt_v_ctor(q.id));
    ASSUME(__xt_forall_eq(q.id, q.mem, b.mem, q.n));
    ASSERT(q.type.hash(q.mem) == q.type.hash(b.mem), "equal arrays have equal hashes");
}
HARNESS(pair_compare)
{
    Par q; Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); r.live();
    bool e = q.type.compare_instance(q.mem, r.mem);
    ASSERT(e == (__xt_v_eq(q.a.id_, q.v1(), r.v1()) & __xt_v_eq(q.b.id_, q.v2(), r.v2())), "pairs are equal exactly when both parts are");
}
HARNESS(pair_hash)
{
    Par q; Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); r.live();
    // the parts are equal, and equal parts have equal hashes
    ASSUME(__xt_v_hash(q.a.id_, q.v1()) == __xt_v_hash(r.a.id_, r.v1())); ASSUME(__xt_v_hash(q.b.id_, q.v2()) == __xt_v_hash(r.b.id_, r.v2()));
    ASSERT(q.type.hash(q.mem) == q.type.hash(r.mem), "equal pairs have equal hashes");
}
HARNESS(alias_compare)
{
    Opaque o(any_id(), any_kind()); AliasType a(o, "a"), b(a, "b"); P q = __xt_slots(o.id_, 1), r = __xt_slots(o.id_, 1);
    ASSERT(b.compare_instance(q, r) == __xt_v_eq(o.id_, __xt_val(o.id_, q), __xt_val(o.id_, r)), "aliased data are compared as the data");
    ASSERT(b.hash(q) == __xt_v_hash(o.id_, __xt_val(o.id_, q)), "aliased data have the hash of the data");
}
