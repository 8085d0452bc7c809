// C03: copy and move of structures over any member types.
#include "str.hpp"
template<int N> void copied(Str<N>& a, Str<N>& b)
{
    a.fill(); b.reserve(); b.type.copy_instance(b.mem, a.mem);
    for(int k = 0; k < N; ++k) ASSERT(b.live(k) && b.val(k) == a.first(k) && a.val(k) == a.first(k), "a copied structure has the values of its source, which keeps them");
    for(int k = 0; k < N; ++k)
    {
        uint64_t x = b.change(k); ASSERT(a.val(k) == a.first(k), "a change of the copy is not visible in the source");
        a.change(k); ASSERT(b.val(k) == x, "a change of the source is not visible in the copy");
    }
}
HARNESS(struct_copy_1) { Str<1> a, b(a, 0); copied<1>(a, b); }
HARNESS(struct_copy_2) { Str<2> a, b(a, 0); copied<2>(a, b); }
HARNESS(struct_copy_3) { Str<3> a, b(a, 0); copied<3>(a, b); }
template<int N> void moved(Str<N>& a, Str<N>& b)
{
    a.fill(); bool init = nd<bool>(); if(init) b.fill(); else b.reserve();
    b.type.move_instance(b.mem, a.mem, init);
    for(int k = 0; k < N; ++k) ASSERT(b.live(k) && b.val(k) == a.first(k), "a moved structure has the values of its source");
    for(int k = 0; k < N; ++k) { uint64_t x = b.val(k); ASSERT(a.live(k), "the source stays a data of its own"); a.change(k); ASSERT(b.val(k) == x, "a change of the source is not visible"); }
}
HARNESS(struct_move_1) { Str<1> a, b(a, 0); moved<1>(a, b); }
HARNESS(struct_move_2) { Str<2> a, b(a, 0); moved<2>(a, b); }
HARNESS(struct_move_3) { Str<3> a, b(a, 0); moved<3>(a, b); }
HARNESS(struct_data)
{
    Str<2> a; a.fill(); WritableDynamicDataRef s(a.type, a.mem); const ReadableDynamicDataRef& c = s; DynamicData d(c); DynamicData e(d);
    auto v = [&](const ReadableDynamicDataRef& r, int k) { return __xt_val(a.id(k), r[size_t(k)].instance_); };
    ASSERT(v(d, 0) == a.first(0) && v(d, 1) == a.first(1) && v(e, 0) == a.first(0) && v(e, 1) == a.first(1), "a copied data has the members of its source");
    P n = __xt_slots(a.id(1), 1); uint64_t x = __xt_val(a.id(1), n); WritableDynamicDataRef nr(a.m(1), n); e["b"] = nr;
    ASSERT(v(e, 1) == x && v(e, 0) == a.first(0) && v(d, 1) == a.first(1) && v(s, 1) == a.first(1), "a member assigned in a copy changes the copy only"); ASSERT(__xt_val(a.id(1), n) == x, "the assigned value is copied");
    d = e; ASSERT(v(d, 1) == x && v(d, 0) == a.first(0), "an assigned data has the members of its source"); DynamicData f(d["a"]); ASSERT(__xt_val(a.id(0), f.instance_) == a.first(0), "a data made from a member is a copy of it");
}
