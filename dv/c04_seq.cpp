// C04: equality and hash of sequences.
#include "seq.hpp"
struct Two : Seq { Seq b; Two() : b(id, elem.kind(), type.bounds_) {} };
HARNESS(seq_compare)
{
    Two q; uint32_t n = q.size(), m = q.b.size();
    bool all = n == m && (n == 0 || __xt_forall_eq(q.id, q.s().memory_, q.b.s().memory_, n));
    bool r = q.type.compare_instance(q.mem, q.b.mem);
    ASSERT(r == all, "sequences are equal exactly when they have the same size and pairwise equal elements");
    uint32_t j = nd<uint32_t>();
    if(r && j < n) { __xt_index(j); ASSERT(__xt_v_eq(q.id, q.val(j), q.b.val(j)), "elements of equal sequences are equal"); }
}
HARNESS(seq_compare_bounds)
{
    // the same content under another bound
    Seq q; Seq b(q.id, q.elem.kind(), nd<uint32_t>()); uint32_t n = q.size(), m = b.size();
    bool all = n == m && (n == 0 || __xt_forall_eq(q.id, q.s().memory_, b.s().memory_, n));
    ASSERT(q.type.compare_instance(q.mem, b.mem) == all, "equality does not depend on bounds or capacity");
}
HARNESS(seq_hash)
{
    __xt_eqhash();
    Two q; __xt_index(0); uint32_t n = q.size(), m = q.b.size();
    ASSUME(n == m && (n == 0 || __xt_forall_eq(q.id, q.s().memory_, q.b.s().memory_, n)));
    ASSERT(q.type.hash(q.mem) == q.b.type.hash(q.b.mem), "equal sequences have equal hashes");
}
