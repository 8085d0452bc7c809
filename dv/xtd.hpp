// Contracts and proof harnesses over the real headers: common part.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <regex>
#include <locale>
#include <codecvt>
#include <type_traits>
#include <algorithm>
#include <cuchar>
#define private public
#define protected public
#include <xtypes/xtypes.hpp>
#undef private
#undef protected
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
using namespace eprosima::xtypes;
extern "C" {
uint64_t __xt_nondet_u64(); uint32_t __xt_nondet_u32(); uint16_t __xt_nondet_u16(); uint8_t __xt_nondet_u8(); bool __xt_nondet_bool(); long double __xt_nondet_ld();
void __xt_assume(bool); void __xt_assert(bool, const char*);
// contract of Instanceable on an opaque type (ty): lifetime and value of the instance at a location
uint64_t __xt_size(uint64_t ty);
void __xt_construct(uint64_t ty, uint8_t* p);
void __xt_copy(uint64_t ty, uint8_t* d, const uint8_t* s);
void __xt_conv(uint64_t ty, uint8_t* d, const uint8_t* s, uint64_t oty);
void __xt_move(uint64_t ty, uint8_t* d, uint8_t* s, bool init);
void __xt_destroy(uint64_t ty, uint8_t* p);
bool __xt_eq(uint64_t ty, const uint8_t* a, const uint8_t* b);
uint64_t __xt_hash(uint64_t ty, const uint8_t* a);
// specification side
uint8_t* __xt_slots(uint64_t ty, uint64_t n); uint8_t* __xt_slots2(uint64_t t1, uint64_t t2, uint64_t n); void __xt_order(uint64_t t1, uint64_t t2);
bool __xt_live(uint64_t ty, const uint8_t* p); uint64_t __xt_val(uint64_t ty, const uint8_t* p);
uint64_t __xt_v_default(uint64_t ty); uint64_t __xt_v_conv(uint64_t ty, uint64_t v, uint64_t oty); bool __xt_v_eq(uint64_t ty, uint64_t a, uint64_t b); uint64_t __xt_v_hash(uint64_t ty, uint64_t v); bool __xt_v_ctor(uint64_t ty);
void __xt_index(uint64_t j); bool __xt_forall_eq(uint64_t ty, const uint8_t* p, const uint8_t* q, uint64_t n); void __xt_eqhash(); void __xt_sorted(uint64_t ty, const uint8_t* p, uint64_t n); void __xt_absent(uint64_t ty, const uint8_t* p, uint64_t n, uint64_t h); void __xt_spare(uint64_t ty, const uint8_t* p, uint64_t lo, uint64_t hi); bool __xt_freed(const void*); bool __xt_same_object(const void*, const void*); void __xt_mark(); void __xt_noleak();
uint64_t __xt_uf1(const char* f, uint64_t a); uint64_t __xt_uf2(const char* f, uint64_t a, uint64_t b); uint64_t __xt_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c);
}
#ifndef XT_NATIVE
// contract of the out-of-line part of std::map (libstdc++): a search tree; balance is not observable
namespace std
{
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
}
static _Rb_tree_node_base* __xt_increment(_Rb_tree_node_base* x)
{
    if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* __xt_decrement(_Rb_tree_node_base* x)
{
    if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if(x->_M_left) { x = x->_M_left; while(x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return __xt_increment(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return __xt_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return __xt_decrement(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return __xt_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
#endif
#ifdef XT_NATIVE
// the same harnesses, compiled natively, with inputs that native.cpp chooses: replay of failed obligations on the real code
extern "C" { void __xt_native_kind(uint64_t id, bool ctor); uint32_t __xt_native_pick(uint32_t k); void __xt_native_register(const char* n, void (*f)()); }
#define XT_KIND(id, c) __xt_native_kind(id, c)
#define XT_PICK(k) __xt_native_pick(k)
#else
#define XT_KIND(id, c) ((void)0)
#define XT_PICK(k) (k)
#endif
#define ASSERT(c, n) __xt_assert(bool(c), n)
#define ASSUME(c) __xt_assume(bool(c))
#ifdef XT_NATIVE
#define HARNESS(name) extern "C" void h_##name(); namespace { struct R_##name { R_##name() { __xt_native_register(#name, h_##name); } } r_##name; } extern "C" void h_##name()
#else
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void h_##name()
#endif
template<class C> C nd()
{
    C v;
    if constexpr(std::is_same<C, bool>::value) v = __xt_nondet_bool();
    else if constexpr(sizeof(C) == 1) { uint8_t b = __xt_nondet_u8(); memcpy(&v, &b, 1); }
    else if constexpr(sizeof(C) == 2) { uint16_t b = __xt_nondet_u16(); memcpy(&v, &b, 2); }
    else if constexpr(sizeof(C) == 4) { uint32_t b = __xt_nondet_u32(); memcpy(&v, &b, 4); }
    else if constexpr(sizeof(C) == 8) { uint64_t b = __xt_nondet_u64(); memcpy(&v, &b, 8); }
    else v = __xt_nondet_ld();
#ifdef XT_NATIVE
    if constexpr(std::is_floating_point<C>::value) ASSUME(v == v);
#endif
    return v;
}
template<class F> bool rejects(F f) { try { f(); return false; } catch(const std::runtime_error&) { return true; } }
template<class C> bool same(C a, C b)
{
    if constexpr(sizeof(C) == 16) return memcmp(&a, &b, 10) == 0;
    else return memcmp(&a, &b, sizeof(C)) == 0;
}

// ---------------------------------------------------------------- an arbitrary type, known by the contract of Instanceable only
using P = uint8_t*; using CP = const uint8_t*;
struct Opaque : public DynamicType
{
    uint64_t id_;
    Opaque(uint64_t id, TypeKind kind) : DynamicType(kind, "o"), id_(id) { XT_KIND(id, is_constructed_type()); ASSUME(__xt_v_ctor(id) == is_constructed_type()); ASSUME((__xt_size(id) > 0) & (__xt_size(id) < (1ull << 31))); }
    size_t memory_size() const override { return __xt_size(id_); }
    void construct_instance(P p) const override { __xt_construct(id_, p); }
    void copy_instance(P d, CP s) const override { __xt_copy(id_, d, s); }
    static uint64_t id(const DynamicType& t) { return static_cast<const Opaque&>(t).id_; }
    void copy_instance_from_type(P d, CP s, const DynamicType& o) const override { __xt_conv(id_, d, s, id(o)); }
    void move_instance(P d, P s, bool init) const override { __xt_move(id_, d, s, init); }
    void destroy_instance(P p) const override { __xt_destroy(id_, p); }
    bool compare_instance(CP a, CP b) const override { return __xt_eq(id_, a, b); }
    uint64_t hash(CP a) const override { return __xt_hash(id_, a); }
    TypeConsistency is_compatible(const DynamicType& o) const override { return TypeConsistency(uint32_t(__xt_uf2("compat", id_, id(o)))); }
    void for_each_instance(const InstanceNode& n, InstanceVisitor v) const override { v(n); }
    void for_each_type(const TypeNode& n, TypeVisitor v) const override { v(n); }
    std::shared_ptr<DynamicType> clone() const override { return std::make_shared<Opaque>(*this); }
};
// the kind of an arbitrary type: any primitive or constructed kind but alias (which containers see through)
inline TypeKind any_kind()
{
    uint32_t k = XT_PICK(nd<uint32_t>());
    ASSUME(((k >= 0x4001) & (k <= 0x400F)) | ((k >= 0x4083) & (k <= 0x4089)) | ((k >= 0x8000) & (k <= 0x87FF))); ASSUME(k != uint32_t(TypeKind::ALIAS_TYPE)); ASSUME(k != uint32_t(TypeKind::STRUCTURE_TYPE));
    return TypeKind(k);
}
// contract of is_compatible: a type is equal to itself
inline void reflexive(uint64_t id) { ASSUME(uint32_t(__xt_uf2("compat", id, id)) == uint32_t(TypeConsistency::EQUALS)); }
inline uint64_t any_id() { return nd<uint64_t>(); }
