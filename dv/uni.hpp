// a union type over two arbitrary member types with arbitrary labels, and a data of it in an arbitrary state
#pragma once
#include "xtd.hpp"
// V: 0 no default, a{l0, l1} b{l2}; 1 a{l0} b{l1, l2} and default; 2 a{l0, l1}, b default without labels
template<class D> struct Uni
{
    Opaque a, b; D l[3]; int v; UnionType type; P mem; P src; int sel; D disc;
    static uint64_t wide(D x) { return uint64_t(int64_t(x)) & (~0ull >> (64 - 8 * sizeof(D))); }
    static D dflt() { return D(~0ull >> (65 - 8 * sizeof(D))); }
    static bool usable(D x) { return (x != dflt()) & (x != D(dflt() - 1)); }
    // the members: one with and one without constructor; the labels of all orders, or increasing
    Uni(int variant, const DynamicType& d, bool orders = false) : Uni(variant, d, any_id(), TypeKind::SEQUENCE_TYPE, any_id(), TypeKind::INT_32_TYPE, orders) {}
    Uni(int variant, const DynamicType& d, uint64_t i, TypeKind k, uint64_t j, TypeKind m, bool orders) : a(i, k), b(j, m), v(variant), type("U", d), mem(nullptr), src(nullptr), sel(-1)
    {
        reflexive(i); reflexive(j);
        for(auto& x : l) { x = nd<D>(); ASSUME(usable(x)); }
        ASSUME((l[0] != l[1]) & (l[0] != l[2]) & (l[1] != l[2]));
        if(!orders) ASSUME((wide(l[0]) < wide(l[1])) & (wide(l[1]) < wide(l[2])));
        add();
    }
    // the same type, for another data
    Uni(Uni& o, int) : a(o.a.id_, o.a.kind()), b(o.b.id_, o.b.kind()), v(o.v), type(o.type), mem(nullptr), src(nullptr), sel(-1) { for(int k = 0; k < 3; ++k) l[k] = o.l[k]; }
    void add()
    {
        const DynamicType& s = a; const DynamicType& t = b;
        if(v == 0) { type.add_case_member(std::vector<D>{l[0], l[1]}, "a", s); type.add_case_member(std::vector<D>{l[2]}, "b", t); }
        else if(v == 1) { type.add_case_member(std::vector<D>{l[0]}, "a", s); type.add_case_member(std::vector<D>{l[1], l[2]}, "b", t, true); }
        else { type.add_case_member(std::vector<D>{l[0], l[1]}, "a", s); type.add_case_member(std::vector<D>(), "b", t, true); }
    }
    // the member that a value of the discriminator denotes
    int owner(D x) const
    {
        if(v == 0) return x == l[0] || x == l[1] ? 0 : x == l[2] ? 1 : -1;
        if(v == 1) return x == l[0] ? 0 : x == l[1] || x == l[2] ? 1 : -1;
        return x == l[0] || x == l[1] ? 0 : x == dflt() ? 1 : -1;
    }
    Opaque& m(int k) { return k == 0 ? a : b; }
    static const char* name(int k) { return k == 0 ? "a" : "b"; }
    D now() { D x; memcpy(&x, mem, sizeof(D)); return x; }
    P at() { return mem + sizeof(D); }
    uint64_t val(int k) { return __xt_val(m(k).id_, at()); }
    bool live(int k) { return __xt_live(m(k).id_, at()); }
    void reserve() { mem = new uint8_t[type.memory_size()]; }
    // any state: nothing selected (without default), or a member under any of its labels
    void state() { state(nd<uint8_t>()); }
    void state(uint8_t s)
    {
        reserve(); D d;
        if(v == 0 && s == 0) { d = D(dflt() - 1); memcpy(mem, &d, sizeof(D)); disc = d; return; }
        if(s == 1) { d = l[0]; sel = 0; } else if(s == 2) { d = l[1]; sel = v == 1; } else { d = v == 2 ? dflt() : l[2]; sel = 1; }
        memcpy(mem, &d, sizeof(D)); disc = d; src = __xt_slots(m(sel).id_, 1); m(sel).copy_instance(at(), src);
    }
    uint64_t first() { return __xt_val(m(sel).id_, src); }
    // discriminator and stored instance correspond
    void corresponds(int k) { ASSERT(owner(now()) == k, "the discriminator denotes the active member"); if(k >= 0) ASSERT(live(k), "the active member is constructed"); else { if(__xt_v_ctor(a.id_)) ASSERT(!live(0), "no member is constructed when none is active"); if(__xt_v_ctor(b.id_)) ASSERT(!live(1), "no member is constructed when none is active"); } }
    void unchanged() { ASSERT(now() == disc, "the discriminator is as it was"); corresponds(sel); if(sel >= 0) ASSERT(val(sel) == first(), "the active member has the value it had"); }
    void release() { type.destroy_instance(mem); delete[] mem; }
};
