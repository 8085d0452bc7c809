// a structure type over N arbitrary member types, and a data of it with arbitrary values
#pragma once
#include "xtd.hpp"
template<int N> struct Str
{
    alignas(16) uint8_t raw[N + 1][sizeof(Opaque)];
    StructType type; P mem; P src[N + 1];
    static const char* name(int k) { return k == 0 ? "a" : k == 1 ? "b" : k == 2 ? "c" : "d"; }
    Opaque& m(int k) { return *reinterpret_cast<Opaque*>(raw[k]); }
    uint64_t id(int k) { return m(k).id_; }
    Str() : type("S"), mem(nullptr) { for(int k = 0; k < N; ++k) { new(raw[k]) Opaque(any_id(), any_kind()); reflexive(id(k)); type.add_member(name(k), static_cast<const DynamicType&>(m(k))); } }
    explicit Str(TypeKind kind) : type("S"), mem(nullptr) { for(int k = 0; k < N; ++k) { new(raw[k]) Opaque(any_id(), kind); reflexive(id(k)); type.add_member(name(k), static_cast<const DynamicType&>(m(k))); } }
    // the first members are those of a parent
    struct Inherit {};
    Str(Inherit, int own) : type(make(own)), mem(nullptr) { for(int k = own; k < N; ++k) type.add_member(name(k), static_cast<const DynamicType&>(m(k))); }
    StructType make(int own) { StructType p("P"); for(int k = 0; k < N; ++k) new(raw[k]) Opaque(any_id(), any_kind()); for(int k = 0; k < own; ++k) p.add_member(name(k), static_cast<const DynamicType&>(m(k))); return StructType("S", &p); }
    // the same types, another data
    template<int M> Str(Str<M>& o, int) : type("S"), mem(nullptr) { for(int k = 0; k < N; ++k) { new(raw[k]) Opaque(o.id(k), o.m(k).kind()); type.add_member(name(k), static_cast<const DynamicType&>(m(k))); } }
    void reserve() { mem = new uint8_t[type.memory_size()]; }
    void fill() { reserve(); for(int k = 0; k < N; ++k) { src[k] = __xt_slots(id(k), 1); m(k).copy_instance(at(k), src[k]); } }
    P at(int k) { return mem + type.member(size_t(k)).offset(); }
    uint64_t val(int k) { return __xt_val(id(k), at(k)); }
    uint64_t first(int k) { return __xt_val(id(k), src[k]); }
    bool live(int k) { return __xt_live(id(k), at(k)); }
    // gives a member another arbitrary value, through its type
    uint64_t change(int k) { P v = __xt_slots(id(k), 1); m(k).destroy_instance(at(k)); m(k).copy_instance(at(k), v); return __xt_val(id(k), v); }
    void release() { type.destroy_instance(mem); delete[] mem; }
};
