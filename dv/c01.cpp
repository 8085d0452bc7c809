// C01: SequenceType / SequenceInstance under contract, for any element type, size, capacity, bound and index.
#include "seq.hpp"
HARNESS(construct)
{
    Seq q(any_id(), any_kind(), nd<uint32_t>(), 0);
    ASSERT(q.type.memory_size() == sizeof(SequenceInstance), "the storage holds a sequence");
    q.type.construct_instance(q.mem);
    ASSERT(q.size() == 0, "a new sequence is empty"); q.invariant();
}
HARNESS(push)
{
    Seq q; P v = __xt_slots(q.id, 1); uint64_t x = __xt_val(q.id, v), o = 0; uint32_t n = q.size(), j = nd<uint32_t>();
    bool any = n > 0;
    if(any) { ASSUME(j < n); __xt_index(j); o = q.val(j); }
    ASSUME(n < q.limit());
    P p = q.type.push_instance(q.mem, v);
    ASSERT(q.size() == n + 1, "push adds exactly one element"); ASSERT(p == q.at(n), "push returns the new element"); ASSERT(q.val(n) == x, "the new element has the pushed value");
    ASSERT(__xt_val(q.id, v) == x, "the pushed value is unchanged");
    if(any) ASSERT(q.val(j) == o, "an element keeps its value and index when another is pushed");
    q.invariant();
}
HARNESS(push_own_element)
{
    Seq q; uint32_t n = q.size(), i = nd<uint32_t>(), j = nd<uint32_t>();
    ASSUME((i < n) & (j < n)); __xt_index(i); __xt_index(j);
    uint64_t x = q.val(i), o = q.val(j);
    ASSUME(n < q.limit());
    q.type.push_instance(q.mem, q.at(i));
    ASSERT(q.size() == n + 1, "push adds exactly one element"); ASSERT(q.val(n) == x, "an element of the same sequence is pushed with its value"); ASSERT(q.val(j) == o, "an element keeps its value and index when another is pushed"); q.invariant();
}
HARNESS(resize)
{
    Seq q; uint64_t o = 0; uint32_t n = q.size(), m = nd<uint32_t>(), j = nd<uint32_t>(), k = nd<uint32_t>();
    ASSUME(m <= q.limit());
    bool any = n > 0;
    if(any) { ASSUME(j < n); __xt_index(j); o = q.val(j); }
    q.type.resize_instance(q.mem, m);
    ASSERT(q.size() == (m > n ? m : n), "resize gives the larger of the two sizes");
    if(any) ASSERT(q.val(j) == o, "an element keeps its value and index in a resize");
    if(m > n) { ASSUME((k >= n) & (k < m)); __xt_index(k); ASSERT(q.val(k) == __xt_v_default(q.id), "elements added by resize have the default value"); }
    q.invariant();
}
HARNESS(index)
{
    Seq q; uint32_t n = q.size(), i = nd<uint32_t>(), j = nd<uint32_t>();
    ASSERT(n == q.s().size(), "size");
    if(i < n) { P p = q.at(i); __xt_index(i); ASSERT(__xt_live(q.id, p), "an index below the size denotes an element"); if(j < n && j != i) ASSERT(q.at(j) != p, "different indices denote different elements"); }
    else ASSERT(rejects([&]{ q.at(i); }), "an index not below the size is refused");
}
