// C03: copying and moving arrays, pairs and aliased data.
#include "agg.hpp"
HARNESS(arr_copy)
{
    Arr q; Arr r(q.id, q.elem.kind(), q.n); r.raw(); uint32_t j = nd<uint32_t>(); ASSUME(j < q.n); __xt_index(j); uint64_t o = q.val(j);
    q.type.copy_instance(r.mem, q.mem);
    ASSERT(r.val(j) == o, "a copy of an array holds the values of its source"); ASSERT(q.val(j) == o, "the source of a copy keeps its values");
    q.type.destroy_instance(q.mem); delete[] q.mem;
    ASSERT(r.val(j) == o, "a copy survives its source");
}
HARNESS(arr_move)
{
    Arr q; Arr r(q.id, q.elem.kind(), q.n); bool init = nd<bool>(); uint32_t j = nd<uint32_t>(); ASSUME(j < q.n); __xt_index(j); uint64_t o = q.val(j);
    if(init) r.live(); else r.raw();
    q.type.move_instance(r.mem, q.mem, init);
    ASSERT(r.val(j) == o, "a moved array holds the values of its source");
    q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem);
}
HARNESS(pair_copy)
{
    Par q; Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); r.raw(); uint64_t x = q.v1(), y = q.v2();
    q.type.copy_instance(r.mem, q.mem);
    ASSERT(r.v1() == x && r.v2() == y, "a copy of a pair holds the values of its source"); ASSERT(q.v1() == x && q.v2() == y, "the source of a copy keeps its values");
    q.type.destroy_instance(q.mem); delete[] q.mem;
    ASSERT(r.v1() == x && r.v2() == y, "a copy survives its source");
}
HARNESS(pair_move)
{
    Par q; Par r(q.a.id_, q.a.kind(), q.b.id_, q.b.kind()); bool init = nd<bool>(); uint64_t x = q.v1(), y = q.v2();
    if(init) r.live(); else r.raw();
    q.type.move_instance(r.mem, q.mem, init);
    ASSERT(r.v1() == x && r.v2() == y, "a moved pair holds the values of its source");
    q.type.destroy_instance(q.mem); r.type.destroy_instance(r.mem);
}
HARNESS(alias_copy)
{
    Opaque o(any_id(), any_kind()); AliasType a(o, "a"), b(a, "b"); P q = __xt_slots(o.id_, 1); P r = new uint8_t[b.memory_size()], s = new uint8_t[b.memory_size()]; uint64_t x = __xt_val(o.id_, q);
    b.copy_instance(r, q); ASSERT(__xt_val(o.id_, r) == x && __xt_val(o.id_, q) == x, "a copy through aliases holds the value of its source");
    b.move_instance(s, r, false); ASSERT(__xt_val(o.id_, s) == x, "a move through aliases carries the value");
    b.destroy_instance(q); b.destroy_instance(r); b.destroy_instance(s);
}
