// C11: lifetime of the elements of a sequence: constructed before use, destroyed once, memory released. The obligations "lifetime", "memory-safety" and "no-leak" of every step.
#include "seq.hpp"
HARNESS(seq_destroy) { Seq q; bool any = q.s().memory_ != nullptr; CP m = q.s().memory_; q.type.destroy_instance(q.mem); if(any) ASSERT(__xt_freed(m), "the memory of a destroyed sequence is released"); }
HARNESS(seq_push_destroy)
{
    Seq q; P v = __xt_slots(q.id, 1); ASSUME(q.size() < q.limit());
    CP m = q.s().memory_; bool any = m != nullptr;
    q.type.push_instance(q.mem, v); ASSERT(__xt_live(q.id, v), "the pushed value stays alive");
    if(any) ASSERT(q.s().memory_ == m || __xt_freed(m), "memory replaced by a push is released");
    q.type.destroy_instance(q.mem);
}
HARNESS(seq_resize_destroy)
{
    Seq q; uint32_t n = nd<uint32_t>(); ASSUME(n <= q.limit());
    CP m = q.s().memory_; bool any = m != nullptr;
    q.type.resize_instance(q.mem, n);
    if(any) ASSERT(q.s().memory_ == m || __xt_freed(m), "memory replaced by a resize is released");
    q.type.destroy_instance(q.mem);
}
HARNESS(seq_copy_destroy)
{
    Seq q; Seq r(q.id, q.elem.kind(), q.type.bounds_, 0);
    q.type.copy_instance(r.mem, q.mem); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem);
}
HARNESS(seq_move_destroy)
{
    Seq q; Seq r(q.id, q.elem.kind(), q.type.bounds_, 0); bool init = nd<bool>();
    if(init) r.state();
    CP m = init ? r.s().memory_ : nullptr; bool any = m != nullptr;
    q.type.move_instance(r.mem, q.mem, init);
    if(any) ASSERT(__xt_freed(m), "the previous content of the target of a move is released");
    q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem);
}
HARNESS(seq_life)
{
    // from construction to destruction nothing is left
    uint64_t id = any_id(); TypeKind k = any_kind(); uint32_t b = nd<uint32_t>(), n = nd<uint32_t>();
    __xt_mark();
    { Seq q(id, k, b, 0); q.type.construct_instance(q.mem); ASSUME(n <= q.limit()); q.type.resize_instance(q.mem, n); q.type.destroy_instance(q.mem); }
    __xt_noleak();
}
