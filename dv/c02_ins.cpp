// C02: insertion into a map. find_place() is replaced by its contract, which c02_place.cpp verifies.
#include "map_ins.hpp"
// the public operation: for every key and every entry j of the map before it
template<bool FULL> struct Insert : Map
{
    P key; uint64_t x; uint32_t n0; Map& q;
    Insert(bool kc, bool vc) : q(*this)
    {
        ASSUME(__xt_v_ctor(k) == kc); ASSUME(__xt_v_ctor(v) == vc); ASSUME((s().size_ == s().capacity_) == FULL);
        key = __xt_slots(k, 1); x = __xt_v_hash(k, __xt_val(k, key)); n0 = size(); if(n0 > 0) { __xt_absent(k, s().memory_, n0, x); GX = x; G = nd<uint64_t>(); ASSUME(G <= n0); __xt_index(G); if(G > 0) ASSUME(hashat(&s(), k, G - 1) < x); if(G < n0) ASSUME(hashat(&s(), k, G) > x); }
    }
    void run()
    {
        uint64_t n = n0, j = 0, kj = 0, vj = 0; uint64_t xv = __xt_val(k, key);
        if(n > 0) { j = nd<uint64_t>(); ASSUME(j < n); __xt_index(j); kj = keyat(q, j); vj = valat(q, j); }
        P p = nullptr; ASSERT(!rejects([&]{ p = type.insert_instance(mem, key); }), "a key that is not in the map can be inserted");
        if constexpr(!FULL) ASSERT(p != nullptr, "a map below its bound takes a new key");
        else if(!p)
        {
            ASSERT(n >= limit(), "an insertion is refused only at the bound"); ASSERT(size() == n, "a refused insertion keeps the size");
            if(n > 0) ASSERT(keyat(q, j) == kj && valat(q, j) == vj, "a refused insertion keeps the entries");
            return;
        }
        ASSERT(n < limit(), "the bound is not exceeded"); ASSERT(size() == n + 1, "the size grows by one");
        uint64_t i = uint64_t(p - s().memory_) / s().block_size_; __xt_index(i);
        ASSERT(i <= n, "internal: the place is in the map"); ASSERT(p == kplace(q, i), "internal: the start of an entry is found");
        ASSERT(keyat(q, i) == xv, "the new entry has the key"); ASSERT(valat(q, i) == __xt_v_default(v), "the new entry has the default value");
        if(n > 0)
        {
            uint64_t r = j < i ? j : j + 1; __xt_index(r);
            ASSERT(keyat(q, r) == kj, "the keys of the other entries are kept"); ASSERT(valat(q, r) == vj, "the values of the other entries are kept");
if(i > 0) ASSERT(hashat(&s(), k, i - 1) < x, "internal: the key before the place is smaller"); if(i < n) ASSERT(hashat(&s(), k, i + 1) > x, "internal: the key after the place is greater");
        }
        ASSERT(s().size_ <= s().capacity_, "internal: size within capacity"); ASSERT(!bounded() || s().capacity_ <= type.bounds_, "internal: the capacity keeps the bound");
        uint64_t e = nd<uint64_t>(); ASSUME(e < s().capacity_); __xt_index(e); ASSERT(__xt_live(k, kplace(q, e)) && __xt_live(v, vplace(q, e)), "internal: all reserved slots hold an instance");
    }
};
#define INS(a, b, c, n) HARNESS(insert_##n) { Insert<c> t(a, b); t.run(); }
INS(false, false, false, plain) INS(false, false, true, plain_grow) INS(true, false, false, key) INS(true, false, true, key_grow) INS(false, true, false, value) INS(false, true, true, value_grow) INS(true, true, false, both) INS(true, true, true, both_grow)
