// data of an arbitrary type through the API of DynamicData
#pragma once
#include "xtd.hpp"
struct Dat
{
    Opaque type; uint64_t id; P src; uint64_t first; DynamicData d;
    // a data with an arbitrary value
    Dat() : Dat(any_id(), any_kind()) {}
    Dat(uint64_t i, TypeKind k) : type(i, k), id(i), src(__xt_slots(i, 1)), first(__xt_val(i, src)), d(WritableDynamicDataRef(type, src)) { reflexive(i); }
    static P at(const ReadableDynamicDataRef& r) { return r.instance_; }
    uint64_t val() { return __xt_val(id, d.instance_); }
};
inline uint64_t value_of(uint64_t id, const ReadableDynamicDataRef& r) { return __xt_val(id, r.instance_); }
// gives a data another arbitrary value, through its type
inline uint64_t change(const Opaque& t, const ReadableDynamicDataRef& r) { P v = __xt_slots(t.id_, 1); uint64_t x = __xt_val(t.id_, v); t.destroy_instance(r.instance_); t.copy_instance(r.instance_, v); return x; }
