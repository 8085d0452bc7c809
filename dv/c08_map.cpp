// C08: the entries of a map lie in its memory, key and value apart, entries apart.
#include "map.hpp"
HARNESS(map_entries)
{
    Map q; uint32_t n = q.size(), i = nd<uint32_t>(), j = nd<uint32_t>(); ASSUME((i < n) & (j < n) & (i != j)); __xt_index(i); __xt_index(j);
    P a = q.at(i), b = q.at(j);
    ASSERT(q.type.content_type().memory_size() == q.key.memory_size() + q.value.memory_size(), "an entry has the size of its key and value");
    ASSERT(__xt_live(q.k, a) && __xt_live(q.v, q.vat(i)) && __xt_live(q.k, b) && __xt_live(q.v, q.vat(j)), "an index denotes an entry, a key and a value, inside the map"); ASSERT(a != b, "different entries have different places");
    P v = __xt_slots(q.v, 1); uint64_t y = __xt_val(q.v, v), kj = q.kval(j), vi = q.vval(i), ki = q.kval(i);
    q.value.destroy_instance(q.vat(j)); q.value.copy_instance(q.vat(j), v);
    ASSERT(q.vval(j) == y && q.kval(j) == kj, "a written value is read, under the same key"); ASSERT(q.vval(i) == vi && q.kval(i) == ki, "writing a value leaves the other entries as they were");
}
