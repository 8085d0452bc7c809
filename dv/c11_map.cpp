// C11: lifetime of the entries of a map. The obligations "lifetime", "memory-safety" and "no-leak" of every step.
#include "map.hpp"
HARNESS(map_destroy) { Map q; bool any = q.s().memory_ != nullptr; CP m = q.s().memory_; q.type.destroy_instance(q.mem); if(any) ASSERT(__xt_freed(m), "the memory of a destroyed map is released"); }
HARNESS(map_copy_destroy) { Map q; Map r(q, 0); q.type.copy_instance(r.mem, q.mem); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem); }
HARNESS(map_move_destroy)
{
    Map q; Map r(q, 0); bool init = nd<bool>();
    if(init) r.state();
    CP m = init ? r.s().memory_ : nullptr; bool any = m != nullptr;
    q.type.move_instance(r.mem, q.mem, init);
    if(any) ASSERT(__xt_freed(m), "the previous content of the target of a move is released");
    q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem);
}
HARNESS(map_life)
{
    uint64_t i = any_id(), j = any_id(); TypeKind a = any_kind(), b = any_kind(); uint32_t n = nd<uint32_t>();
    __xt_mark();
    { Map q(i, a, j, b, n); q.type.construct_instance(q.mem); Map r(q, 0); q.type.copy_instance(r.mem, q.mem); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem); }
    __xt_noleak();
}
