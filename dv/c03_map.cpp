// C03: copying and moving maps, for any key and value types, sizes, capacities and contents.
#include "map.hpp"
struct Entry
{
    uint64_t j = 0, key = 0, value = 0; bool any;
    Entry(Map& q) : any(q.size() > 0) { if(any) { j = nd<uint32_t>(); ASSUME(j < q.size()); __xt_index(j); key = q.kval(j); value = q.vval(j); } }
    bool in(Map& q) { return !any || (q.kval(j) == key && q.vval(j) == value); }
};
HARNESS(map_copy)
{
    Map q; Map r(q, 0); uint32_t n = q.size(); Entry e(q);
    q.type.copy_instance(r.mem, q.mem);
    ASSERT(r.size() == n && q.size() == n, "a copy has the size of its source, which keeps it");
    ASSERT(e.in(r), "a copy holds the keys and values of its source"); ASSERT(e.in(q), "the source of a copy keeps its keys and values");
    if(e.any) ASSERT(r.at(e.j) != q.at(e.j), "a copy does not share the storage of its source");
    r.invariant(); q.invariant();
    q.type.destroy_instance(q.mem);
    ASSERT(e.in(r), "a copy survives its source");
}
HARNESS(map_move)
{
    Map q; Map r(q, 0); uint32_t n = q.size(); Entry e(q); bool init = nd<bool>();
    if(init) r.state();
    q.type.move_instance(r.mem, q.mem, init);
    ASSERT(r.size() == n, "a moved map has the size of its source"); ASSERT(e.in(r), "a moved map holds the keys and values of its source");
    r.invariant(); q.invariant();
    q.type.destroy_instance(q.mem);
    ASSERT(e.in(r), "a moved map survives its source");
}
HARNESS(map_copy_then_change)
{
    // writing a value of the copy leaves the source as it was
    Map q; Map r(q, 0); ASSUME(q.size() > 0); Entry e(q); uint64_t i = nd<uint32_t>(); ASSUME(i < q.size()); __xt_index(i);
    q.type.copy_instance(r.mem, q.mem);
    P v = __xt_slots(q.v, 1); q.value.destroy_instance(r.vat(i)); q.value.copy_instance(r.vat(i), v);
    ASSERT(r.vval(i) == __xt_val(q.v, v), "the written value is in the copy"); ASSERT(e.in(q), "writing to a copy leaves its source as it was");
}
