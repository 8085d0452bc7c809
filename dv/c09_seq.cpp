// C09: bounds of sequences, for any element type, size, capacity and bound.
#include "seq.hpp"
HARNESS(push_full)
{
    Seq q; P v = __xt_slots(q.id, 1); uint64_t o = 0; uint32_t n = q.size(), j = nd<uint32_t>();
    ASSUME(n == q.limit()); ASSUME(j < n); __xt_index(j); o = q.val(j);
    ASSERT(q.type.push_instance(q.mem, v) == nullptr, "a push beyond the bound is refused");
    ASSERT(q.size() == n && q.val(j) == o, "a refused push changes nothing"); q.invariant();
}
HARNESS(push_below)
{
    Seq q; P v = __xt_slots(q.id, 1); uint32_t n = q.size(); ASSUME(n < q.limit());
    ASSERT(q.type.push_instance(q.mem, v) != nullptr, "a push up to the bound is accepted"); ASSERT(q.size() == n + 1, "the sequence grows"); q.invariant();
}
HARNESS(data_push_full)
{
    Seq q; reflexive(q.id); P v = __xt_slots(q.id, 1); uint64_t o = 0; uint32_t n = q.size(), j = nd<uint32_t>();
    ASSUME(n == q.limit()); ASSUME(j < n); __xt_index(j); o = q.val(j);
    WritableDynamicDataRef d(q.type, q.mem), e(q.elem, v);
    ASSERT(rejects([&]{ d.push(e); }), "a push beyond the bound raises an error");
    ASSERT(q.size() == n && q.val(j) == o, "a refused push changes nothing"); q.invariant();
}
HARNESS(data_push_below)
{
    Seq q; reflexive(q.id); P v = __xt_slots(q.id, 1); uint32_t n = q.size(); ASSUME(n < q.limit()); uint64_t x = __xt_val(q.id, v);
    WritableDynamicDataRef d(q.type, q.mem), e(q.elem, v);
    d.push(e); ASSERT(q.size() == n + 1 && d.size() == n + 1, "filling up to the bound succeeds"); ASSERT(q.val(n) == x, "the element pushed is the last one"); q.invariant();
}
HARNESS(data_resize)
{
    Seq q; uint32_t n = q.size(), j = nd<uint32_t>(); uint64_t m = nd<uint64_t>(), o = 0; bool any = n > 0;
    if(any) { ASSUME(j < n); __xt_index(j); o = q.val(j); }
    WritableDynamicDataRef d(q.type, q.mem); bool fits = m <= q.limit();
    bool r = rejects([&]{ d.resize(m); });
    ASSERT(r == !fits, "a resize is refused exactly beyond the bound");
    ASSERT(q.size() == (fits && m > n ? m : n), "the size after a resize"); if(any) ASSERT(q.val(j) == o, "elements are kept"); q.invariant();
}
HARNESS(data_bounds) { Seq q; WritableDynamicDataRef d(q.type, q.mem); ASSERT(d.bounds() == q.type.bounds_ && d.size() == q.size(), "bounds() and size() tell the bound and the number of elements"); }
HARNESS(copy_bound) { Seq q; Seq r(q.id, q.elem.kind(), q.type.bounds_, 0); uint32_t n = q.size(); q.type.copy_instance(r.mem, q.mem); ASSERT(r.size() == n, "a copy has all the elements"); r.invariant(); }
HARNESS(convert_bound)
{
    Seq q; Seq r(q.id, q.elem.kind(), nd<uint32_t>(), 0); uint32_t n = q.size(), b = r.type.bounds_; r.type.copy_instance_from_type(r.mem, q.mem, q.type);
    ASSERT(r.size() == (b && b < n ? b : n), "a conversion keeps what the bound of the target holds, and all without a bound"); r.invariant();
}
