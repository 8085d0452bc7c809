// find_place() replaced by its contract, which c02_place.cpp verifies
#pragma once
#include "map.hpp"
uint64_t hashat(const MapInstance* m, uint64_t k, uint64_t i) { return __xt_v_hash(k, __xt_val(k, m->memory_ + i * m->block_size_)); }
P kplace(Map& q, uint64_t i) { return q.s().memory_ + i * q.s().block_size_; }
P vplace(Map& q, uint64_t i) { return kplace(q, i) + q.key.memory_size(); }
uint64_t keyat(Map& q, uint64_t i) { return __xt_val(q.k, kplace(q, i)); }
uint64_t valat(Map& q, uint64_t i) { return __xt_val(q.v, vplace(q, i)); }
// precondition: the keys are in order; result: the index i at which the key belongs: smaller indices hold smaller keys, i and larger ones keys that are not smaller.
// In order, that index is unique: the harness names it (G, for keys of hash GX), and every call checks that the memory of that moment has it there.
uint64_t G, GX;
extern "C" __attribute__((used)) P __xt_replace__ZNK8eprosima6xtypes11MapInstance10find_placeEPKhb(const MapInstance* m, P key, bool exact)
{
    uint64_t k = Opaque::id(m->content_->first()); uint64_t n = m->size_;
    if(n == 0) return exact ? nullptr : m->memory_;
    uint64_t x = __xt_v_hash(k, __xt_val(k, key));
    if(nd<bool>()) { uint64_t a = nd<uint64_t>(), b = nd<uint64_t>(); ASSUME((a < b) & (b < n)); __xt_index(a); __xt_index(b); ASSERT(hashat(m, k, a) < hashat(m, k, b), "internal: the keys are in order"); ASSUME(false); }
    if(__xt_same_object(key, m->memory_)) { ASSERT(uint64_t(key - m->memory_) / m->block_size_ < n, "internal: the key is in the map"); return key; }                            // a key that is stored in the map is found where it is (harness own_key of c02.cpp)
    uint64_t i = G; ASSERT(x == GX && i <= n, "internal: only the place of the new key is asked for");
    if(i > 0) ASSERT(hashat(m, k, i - 1) < x, "internal: smaller keys before the place");
    if(i == n) { if(exact) return nullptr; }
    else { uint64_t h = hashat(m, k, i); ASSERT(h >= x, "internal: no smaller key after the place"); if(exact && h != x) return nullptr; }
    return m->memory_ + i * m->block_size_;
}
