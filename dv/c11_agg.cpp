// C11: lifetime of the parts of arrays, pairs and aliased data.
#include "agg.hpp"
HARNESS(arr_life)
{
    uint64_t id = any_id(); TypeKind k = any_kind(); uint32_t n = Arr::dim();
    __xt_mark();
    { Arr q(id, k, n); q.raw(); uint32_t j = nd<uint32_t>(); ASSUME(j < n); __xt_index(j);
      q.type.construct_instance(q.mem); ASSERT(__xt_live(id, q.at(j)), "every element is constructed"); q.type.destroy_instance(q.mem);
      if(__xt_v_ctor(id)) ASSERT(!__xt_live(id, q.at(j)), "every element is destroyed"); delete[] q.mem; }
    __xt_noleak();
}
HARNESS(arr_copy_life)
{
    Arr q; Arr r(q.id, q.elem.kind(), q.n); r.raw();
    q.type.copy_instance(r.mem, q.mem); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem); delete[] r.mem; delete[] q.mem;
}
HARNESS(arr_move_life)
{
    Arr q; Arr r(q.id, q.elem.kind(), q.n); bool init = nd<bool>(); if(init) r.live(); else r.raw();
    q.type.move_instance(r.mem, q.mem, init); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem); delete[] r.mem; delete[] q.mem;
}
HARNESS(pair_life)
{
    uint64_t i = any_id(), j = any_id(); TypeKind k = any_kind(), l = any_kind();
    __xt_mark();
    { Par q(i, k, j, l); q.raw(); q.type.construct_instance(q.mem); ASSERT(__xt_live(i, q.first()) && __xt_live(j, q.second()), "both parts are constructed"); q.type.destroy_instance(q.mem); delete[] q.mem; }
    __xt_noleak();
}
HARNESS(pair_copy_life)
{
    Par q; Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); r.raw();
    q.type.copy_instance(r.mem, q.mem); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem); delete[] r.mem; delete[] q.mem;
}
HARNESS(pair_move_life)
{
    Par q; Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); bool init = nd<bool>(); if(init) r.live(); else r.raw();
    q.type.move_instance(r.mem, q.mem, init); q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem); delete[] r.mem; delete[] q.mem;
}
