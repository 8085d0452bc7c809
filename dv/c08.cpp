// C08: parts of a data lie inside it, are disjoint and as large as their type.
#include "agg.hpp"
#include "seq.hpp"
HARNESS(arr_elements)
{
    Arr q; uint32_t i = nd<uint32_t>(), j = nd<uint32_t>(); ASSUME((i < q.n) & (j < q.n) & (i != j)); __xt_index(i); __xt_index(j);
    ASSERT(__xt_live(q.id, q.at(i)) && __xt_live(q.id, q.at(j)), "an index denotes an element inside the array"); ASSERT(q.at(i) != q.at(j), "different elements have different places");
    uint64_t x = q.val(i); Opaque& t = q.elem; P v = __xt_slots(q.id, 1); uint64_t y = __xt_val(q.id, v);
    t.destroy_instance(q.at(j)); t.copy_instance(q.at(j), v);
    ASSERT(q.val(i) == x && q.val(j) == y, "writing an element changes that element only");
}
HARNESS(seq_elements)
{
    Seq q; uint32_t n = q.size(), i = nd<uint32_t>(), j = nd<uint32_t>(); ASSUME((i < n) & (j < n) & (i != j)); __xt_index(i); __xt_index(j);
    ASSERT(__xt_live(q.id, q.at(i)) && __xt_live(q.id, q.at(j)), "an index denotes an element inside the sequence"); ASSERT(q.at(i) != q.at(j), "different elements have different places");
    uint64_t x = q.val(i); P v = __xt_slots(q.id, 1); uint64_t y = __xt_val(q.id, v);
    q.elem.destroy_instance(q.at(j)); q.elem.copy_instance(q.at(j), v);
    ASSERT(q.val(i) == x && q.val(j) == y, "writing an element changes that element only");
}
HARNESS(pair_parts)
{
    Par q; uint64_t y = q.v2(), x = q.v1(); P v = __xt_slots(q.a.id_, 1), w = __xt_slots(q.b.id_, 1); uint64_t z = __xt_val(q.a.id_, v), u = __xt_val(q.b.id_, w);
    ASSERT(q.type.memory_size() == q.a.memory_size() + q.b.memory_size(), "a pair has room for both parts");
    struct V { P f, s; } r{}; V* e = &r;
    Instanceable::InstanceNode node(q.type, q.mem);
    q.type.for_each_instance(node, [e](const Instanceable::InstanceNode& c) { if(c.parent) (c.from_index == 0 ? e->f : e->s) = c.instance; });
    ASSERT(r.f == q.first() && r.s == q.second(), "the parts lie one after the other");
    q.a.destroy_instance(r.f); q.a.copy_instance(r.f, v); ASSERT(q.v1() == z && q.v2() == y, "writing the first part leaves the second");
    q.b.destroy_instance(r.s); q.b.copy_instance(r.s, w); ASSERT(q.v1() == z && q.v2() == u, "writing the second part leaves the first");
}
