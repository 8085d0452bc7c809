// a sequence type over an arbitrary element type, and an instance of it in an arbitrary state
#pragma once
#include "xtd.hpp"
struct Seq
{
    Opaque elem; SequenceType type; uint64_t id;
    alignas(16) uint8_t mem[sizeof(SequenceInstance)];
    Seq() : Seq(any_id(), any_kind(), nd<uint32_t>()) {}
    Seq(uint64_t i, TypeKind k, uint32_t bounds) : elem(i, k), type(elem, 0), id(i) { type.bounds_ = bounds; state(); }
    Seq(uint64_t i, TypeKind k, uint32_t bounds, int) : elem(i, k), type(elem, 0), id(i) { type.bounds_ = bounds; }
    SequenceInstance& s() { return *reinterpret_cast<SequenceInstance*>(mem); }
    uint32_t size() { return type.get_instance_size(mem); }
    P at(uint32_t i) { return type.get_instance_at(mem, i); }
    uint64_t val(uint32_t i) { return __xt_val(id, at(i)); }
    bool bounded() { return type.bounds_ != 0; }
    uint32_t limit() { return bounded() ? type.bounds_ : 0xffffffffu; } // sizes have 32 bits
    // an arbitrary state that satisfies the invariant
    void state()
    {
        new(mem) SequenceInstance(elem, 0);
        if(nd<bool>())
        {
            uint32_t c = nd<uint32_t>(), n = nd<uint32_t>();
            ASSUME((c > 0) & (n <= c) & (((!bounded()) | (c <= type.bounds_))));
            s().memory_ = __xt_slots(id, c); s().capacity_ = c; s().size_ = n; __xt_spare(id, s().memory_, n, c);
        }
    }
    void invariant()
    {
        SequenceInstance& q = s();
        ASSERT(q.size_ <= q.capacity_, "internal: size within capacity"); ASSERT(!bounded() || q.capacity_ <= type.bounds_, "internal: the bound is not exceeded");
        ASSERT((q.memory_ == nullptr) == (q.capacity_ == 0), "internal: memory exactly when there is capacity");
        if(q.capacity_ > 0) { uint32_t j = nd<uint32_t>(); ASSUME(j < q.capacity_); __xt_index(j); ASSERT(__xt_live(id, q.memory_ + j * q.block_size_), "internal: all reserved slots hold an instance"); if(j >= q.size_) ASSERT(__xt_val(id, q.memory_ + j * q.block_size_) == __xt_v_default(id), "internal: slots beyond the size hold the default value"); }
    }
};
