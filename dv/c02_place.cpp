// C02: find_place() under contract, for any key and value types, size and key. Lemmas for insertion (c02_ins.cpp) and lookup.
#include "map.hpp"
// the contract by which c02_ins.cpp knows find_place(): the place is the one at which the order puts the key
HARNESS(find_place)
{
    Map q; P key = __xt_slots(q.k, 1); uint64_t x = __xt_v_hash(q.k, __xt_val(q.k, key)); uint32_t n = q.size(); bool exact = nd<bool>();
    if(n == 0) { P p = q.s().find_place(key, exact); ASSERT(p == (exact ? nullptr : q.s().memory_), "internal: the place in an empty map"); return; }
    P p = q.s().find_place(key, exact);
    if(p)
    {
        uint64_t i = uint64_t(p - q.s().memory_) / q.s().block_size_; ASSERT(i <= n, "internal: the place is in the map or at its end"); ASSERT(p == q.s().memory_ + i * q.s().block_size_, "internal: the start of an entry is found");
        if(exact) ASSERT(i < n && q.h(i) == x, "internal: the entry found has the key");
        if(i > 0) { __xt_index(i - 1); ASSERT(q.h(i - 1) < x, "internal: the key before the place is smaller"); }
        if(i < n) ASSERT(q.h(i) >= x, "internal: the key at the place is not smaller");
    }
}
