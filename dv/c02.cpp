// C02: MapType / MapInstance under contract, for any key and value types, size, capacity, bound and key.
#include "map.hpp"
HARNESS(lookup)
{
    Map q; P key = __xt_slots(q.k, 1); uint64_t x = __xt_v_hash(q.k, __xt_val(q.k, key)); uint32_t n = q.size(), j = nd<uint32_t>(); bool any = n > 0;
    if(any) { ASSUME(j < n); __xt_index(j); }
    P p = q.type.get_instance_at(q.mem, key);
    if(p) { ASSERT(any, "nothing is found in an empty map"); uint64_t i = uint64_t(p - q.s().memory_) / q.s().block_size_; ASSERT(i < n, "a key is found in the map"); ASSERT(p == q.at(i), "the start of an entry is found"); ASSERT(q.h(i) == x, "the entry found has the key"); }
    else if(any) ASSERT(q.h(j) != x, "a key that is not found is not in the map");
}
HARNESS(has_key)
{
    Map q; P key = __xt_slots(q.k, 1); uint64_t x = __xt_v_hash(q.k, __xt_val(q.k, key)); uint32_t n = q.size(), j = nd<uint32_t>(); bool any = n > 0, in = false;
    if(any) { ASSUME(j < n); __xt_index(j); in = q.h(j) == x; }
    bool r = q.type.has_key(q.mem, key);
    ASSERT(r | !in, "a key of the map is contained");
}
HARNESS(index_of)
{
    Map q; P key = __xt_slots(q.k, 1); uint64_t x = __xt_v_hash(q.k, __xt_val(q.k, key)); uint32_t n = q.size(), j = nd<uint32_t>(); ASSUME(j < n); __xt_index(j); ASSUME(q.h(j) == x);
    ASSERT(q.s().index_of(key) == j, "a key of the map has the index of its entry");
}
HARNESS(own_key)
{
    Map q; uint32_t n = q.size(), j = nd<uint32_t>(); ASSUME(j < n); __xt_index(j);
    ASSERT(q.s().index_of(q.at(j)) == j, "an entry has its own index");
}
