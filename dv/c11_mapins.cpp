// C11: lifetime of the entries of a map during an insertion. find_place() is replaced by its contract, which c02_place.cpp verifies.
#include "map_ins.hpp"
template<bool FULL> void inserts(bool kc, bool vc)
{
    Map q; ASSUME(__xt_v_ctor(q.k) == kc); ASSUME(__xt_v_ctor(q.v) == vc); ASSUME((q.s().size_ == q.s().capacity_) == FULL); ASSUME(q.size() < q.limit());
    P key = __xt_slots(q.k, 1); uint64_t x = __xt_v_hash(q.k, __xt_val(q.k, key)); uint32_t n0 = q.size();
    if(n0 > 0) { __xt_absent(q.k, q.s().memory_, n0, x); GX = x; G = nd<uint64_t>(); ASSUME(G <= n0); __xt_index(G); if(G > 0) ASSUME(hashat(&q.s(), q.k, G - 1) < x); if(G < n0) ASSUME(hashat(&q.s(), q.k, G) > x); }
    CP m = q.s().memory_; bool any = m != nullptr;
    __xt_mark();
    q.type.insert_instance(q.mem, key); ASSERT(__xt_live(q.k, key), "the key that was inserted stays alive");
    if(any) ASSERT(q.s().memory_ == m || __xt_freed(m), "memory replaced by an insertion is released");
    q.type.destroy_instance(q.mem); __xt_noleak();
}
#define INS(a, b, c, n) HARNESS(map_insert_##n) { inserts<c>(a, b); }
INS(false, false, false, plain) INS(false, false, true, plain_grow) INS(true, false, true, key_grow) INS(false, true, true, value_grow) INS(true, true, false, both) INS(true, true, true, both_grow)
