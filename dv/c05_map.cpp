// C05: conversion of maps, over any key and value types. The operations on the target, contains_key() and insert(), are replaced by their contracts
// (C02: c02.cpp, c02_ins.cpp): the target is known by the entry that was inserted last, and whether it has a key is any answer.
#include "map.hpp"
struct Ghost { Map *from, *to; P pair; uint32_t due; bool pending, absent; };   // due: the entry of the source that is converted next; pending: entry due - 1 was inserted
static Ghost* g;
static uint64_t key_of(uint64_t i) { __xt_index(i); return __xt_v_conv(g->to->k, g->from->kval(i), g->from->k); }
extern "C" __attribute__((used)) bool __xt_replace__ZNK8eprosima6xtypes11MapInstance12contains_keyEPKh(const MapInstance* m, CP key)
{
    ASSERT(!g->pending, "internal: an entry that is inserted gets its value"); ASSERT(g->due < g->from->size(), "internal: every entry is converted once");
    ASSERT(__xt_val(g->to->k, key) == key_of(g->due), "internal: the keys are converted in order");
    g->due++; g->absent = nd<bool>(); return !g->absent;
}
extern "C" __attribute__((used)) P __xt_replace__ZN8eprosima6xtypes11MapInstance6insertEPKhj(MapInstance* m, CP key, uint32_t bounds)
{
    ASSERT(g->absent, "internal: only a key that is absent is inserted"); ASSERT(bounds == g->to->type.bounds_ && (bounds == 0 || m->size_ < bounds), "internal: nothing is inserted over the bound");
    ASSERT(__xt_val(g->to->k, key) == key_of(g->due - 1), "internal: the converted key is inserted");
    P v = g->pair + g->to->key.memory_size();
    g->to->key.destroy_instance(g->pair); g->to->key.copy_instance(g->pair, key); g->to->value.destroy_instance(v); g->to->value.construct_instance(v);
    m->size_++; g->absent = false; g->pending = true; return g->pair;
}
extern "C" __attribute__((used)) void __xt_replace__ZNK6Opaque23copy_instance_from_typeEPhPKhRKN8eprosima6xtypes11DynamicTypeE(const Opaque* t, P d, CP s, const DynamicType& o)
{
    __xt_conv(t->id_, d, s, Opaque::id(o));
    if(g->pending && d == g->pair + g->to->key.memory_size()) { __xt_index(g->due - 1); ASSERT(__xt_val(t->id_, d) == __xt_v_conv(g->to->v, g->from->vval(g->due - 1), g->from->v), "internal: an entry holds the conversion of the value"); g->pending = false; }
}
static void convert(bool kc, bool vc)
{
    Map q; Map r(any_id(), any_kind(), any_id(), any_kind(), nd<uint32_t>());
    ASSUME(__xt_v_ctor(r.k) == kc); ASSUME(__xt_v_ctor(r.v) == vc);
    ASSUME((q.key.kind() != r.key.kind()) | __xt_v_ctor(q.k) | (q.k == r.k)); ASSUME((q.value.kind() != r.value.kind()) | __xt_v_ctor(q.v) | (q.v == r.v));
    ASSUME((q.k != r.k) | (q.key.kind() == r.key.kind())); ASSUME((q.v != r.v) | (q.value.kind() == r.value.kind()));
    Ghost gh{&q, &r, __xt_slots2(r.k, r.v, 1), 0, false, false}; g = &gh;
    uint64_t n = q.size();
    r.type.copy_instance_from_type(r.mem, q.mem, q.type);
    ASSERT(!gh.pending, "internal: an entry that is inserted gets its value");
    ASSERT(gh.due <= n, "internal: not more entries than the source has"); ASSERT(gh.due == n || (r.bounded() && r.size() == r.type.bounds_), "internal: every entry is converted, unless the bound is reached");
    ASSERT(!r.bounded() || r.size() <= r.type.bounds_, "a converted map keeps its bound"); ASSERT(r.size() <= n, "a converted map has no more entries than its source");
}
HARNESS(map_convert_plain) { convert(false, false); }
HARNESS(map_convert_key) { convert(true, false); }
HARNESS(map_convert_value) { convert(false, true); }
HARNESS(map_convert_both) { convert(true, true); }
