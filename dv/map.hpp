// a map type over arbitrary key and value types, and an instance of it in an arbitrary state
#pragma once
#include "xtd.hpp"
struct Map
{
    Opaque key, value; MapType type; uint64_t k, v;
    alignas(16) uint8_t mem[sizeof(MapInstance)];
    Map() : Map(any_id(), any_kind(), any_id(), any_kind(), nd<uint32_t>()) { state(); }
    Map(uint64_t i, TypeKind a, uint64_t j, TypeKind b, uint32_t bounds) : key(i, a), value(j, b), type(key, value, 0), k(i), v(j) { type.bounds_ = bounds; __xt_order(i, j); ASSUME(i != j); }
    Map(const Map& o, int) : Map(o.k, o.key.kind(), o.v, o.value.kind(), o.type.bounds_) {}
    MapInstance& s() { return *reinterpret_cast<MapInstance*>(mem); }
    uint32_t size() { return type.get_instance_size(mem); }
    bool bounded() { return type.bounds_ != 0; }
    uint32_t limit() { return bounded() ? type.bounds_ : 0xffffffffu; } // sizes have 32 bits
    P at(uint32_t i) { return type.get_instance_at(mem, i); }
    P vat(uint32_t i) { return at(i) + key.memory_size(); }
    uint64_t kval(uint32_t i) { return __xt_val(k, at(i)); }
    uint64_t vval(uint32_t i) { return __xt_val(v, vat(i)); }
    uint64_t h(uint32_t i) { return __xt_v_hash(k, kval(i)); }
    // an arbitrary state that satisfies the invariant
    void state()
    {
        new(mem) MapInstance(static_cast<const PairType&>(type.content_type()), 0);
        if(nd<bool>())
        {
            uint32_t c = nd<uint32_t>(), n = nd<uint32_t>();
            ASSUME((c > 0) & (n <= c) & (((!bounded()) | (c <= type.bounds_))));
            s().memory_ = __xt_slots2(k, v, c); s().capacity_ = c; s().size_ = n;
            __xt_sorted(k, s().memory_, n);
        }
    }
    void invariant()
    {
        MapInstance& q = s();
        ASSERT(q.size_ <= q.capacity_, "internal: size within capacity"); ASSERT(!bounded() || q.capacity_ <= type.bounds_, "internal: the bound is not exceeded");
        ASSERT((q.memory_ == nullptr) == (q.capacity_ == 0), "internal: memory exactly when there is capacity");
        if(q.capacity_ > 0)
        {
            uint32_t i = nd<uint32_t>(), j = nd<uint32_t>(); ASSUME(j < q.capacity_); __xt_index(j);
            ASSERT(__xt_live(k, q.memory_ + j * q.block_size_) && __xt_live(v, q.memory_ + j * q.block_size_ + key.memory_size()), "internal: all reserved slots hold an instance");
            ASSUME((i < j) & (j < q.size_)); __xt_index(i); ASSERT(h(i) < h(j), "internal: the keys are different and in order");
        }
    }
};
