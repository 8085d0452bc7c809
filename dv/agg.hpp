// composite types over arbitrary element types: arrays, pairs, aliases
#pragma once
#include "xtd.hpp"
struct Arr
{
    Opaque elem; ArrayType type; uint64_t id; uint32_t n; P mem;
    Arr(uint64_t i, TypeKind k, uint32_t d) : elem(i, k), type(elem, 0), id(i), n(d) { type.dimension_ = d; mem = nullptr; }
    Arr() : Arr(any_id(), any_kind(), dim()) { live(); }
    static uint32_t dim() { uint32_t d = nd<uint32_t>(); ASSUME(d > 0); return d; }
    void live() { mem = __xt_slots(id, n); }
    void raw() { mem = new uint8_t[type.memory_size()]; }
    P at(uint32_t i) { return type.get_instance_at(mem, i); }
    uint64_t val(uint32_t i) { return __xt_val(id, at(i)); }
    ~Arr() { }
};
// two arbitrary types, one after the other in memory
struct Par
{
    Opaque a, b; PairType type; P mem;
    Par(uint64_t i, TypeKind k, uint64_t j, TypeKind l) : a(i, k), b(j, l), type(a, b) { __xt_order(i, j); mem = nullptr; }
    Par() : Par(any_id(), any_kind(), any_id(), any_kind()) { live(); }
    void live() { mem = __xt_slots2(a.id_, b.id_, 1); }
    void raw() { mem = new uint8_t[type.memory_size()]; }
    P first() { return mem; }
    P second() { return mem + a.memory_size(); }
    uint64_t v1() { return __xt_val(a.id_, first()); }
    uint64_t v2() { return __xt_val(b.id_, second()); }
};
