// C04: hash_combine() under contract: the result depends on the two hashes only. c04_map.cpp knows it by this contract.
#include "xtd.hpp"
HARNESS(hash_combine)
{
    uint64_t a = nd<uint64_t>(), b = nd<uint64_t>(), x = a, y = a, u = b, v = b;
    Instanceable::hash_combine(x, u); Instanceable::hash_combine(y, v);
    ASSERT(x == y, "internal: a function of the two hashes"); ASSERT(u == b, "internal: the combined hash is kept");
}
