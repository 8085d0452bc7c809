// C03: copying and moving sequences.
#include "seq.hpp"
HARNESS(seq_copy)
{
    Seq q; Seq r(q.id, q.elem.kind(), q.type.bounds_, 0); uint64_t o = 0; uint32_t n = q.size(), j = nd<uint32_t>();
    bool any = n > 0;
    if(any) { ASSUME(j < n); __xt_index(j); o = q.val(j); }
    q.type.copy_instance(r.mem, q.mem);
    ASSERT(r.size() == n && q.size() == n, "a copy has the size of its source, which keeps it");
    if(any) { ASSERT(r.val(j) == o, "a copy holds the values of its source"); ASSERT(q.val(j) == o, "the source of a copy keeps its values"); ASSERT(r.at(j) != q.at(j), "a copy does not share the storage of its source"); }
    r.invariant(); q.invariant();
    q.type.destroy_instance(q.mem);
    if(any) ASSERT(r.val(j) == o, "a copy survives its source");
}
HARNESS(seq_move)
{
    Seq q; Seq r(q.id, q.elem.kind(), q.type.bounds_, 0); uint64_t o = 0; uint32_t n = q.size(), j = nd<uint32_t>();
    bool any = n > 0, init = nd<bool>();
    if(any) { ASSUME(j < n); __xt_index(j); o = q.val(j); }
    if(init) r.state();
    q.type.move_instance(r.mem, q.mem, init);
    ASSERT(r.size() == n, "a moved sequence has the size of its source");
    if(any) ASSERT(r.val(j) == o, "a moved sequence holds the values of its source");
    r.invariant(); q.invariant();
    q.type.destroy_instance(q.mem);
    if(any) ASSERT(r.val(j) == o, "a moved sequence survives its source");
}
