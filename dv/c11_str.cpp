// C11: lifetime of the members of structures over any member types.
#include "str.hpp"
template<int N> void life(Str<N>& s)
{
    __xt_mark(); s.reserve(); s.type.construct_instance(s.mem); for(int k = 0; k < N; ++k) ASSERT(s.live(k) && s.val(k) == __xt_v_default(s.id(k)), "every member is constructed with its default value");
    s.type.destroy_instance(s.mem); for(int k = 0; k < N; ++k) if(__xt_v_ctor(s.id(k))) ASSERT(!s.live(k), "every member is destroyed"); delete[] s.mem; __xt_noleak();
}
HARNESS(struct_1) { Str<1> s; life<1>(s); }
HARNESS(struct_2) { Str<2> s; life<2>(s); }
HARNESS(struct_3) { Str<3> s; life<3>(s); }
HARNESS(struct_inherited) { Str<3> s(Str<3>::Inherit(), 1); life<3>(s); }
template<int N> void copied(Str<N>& a, Str<N>& b) { a.fill(); b.reserve(); b.type.copy_instance(b.mem, a.mem); a.release(); for(int k = 0; k < N; ++k) ASSERT(b.live(k), "a copy outlives its source"); b.release(); }
HARNESS(struct_copy_2) { Str<2> a, b(a, 0); copied<2>(a, b); }
HARNESS(struct_copy_3) { Str<3> a, b(a, 0); copied<3>(a, b); }
template<int N> void moved(Str<N>& a, Str<N>& b) { a.fill(); bool init = nd<bool>(); if(init) b.fill(); else b.reserve(); b.type.move_instance(b.mem, a.mem, init); a.release(); for(int k = 0; k < N; ++k) ASSERT(b.live(k), "a moved structure outlives its source"); b.release(); }
HARNESS(struct_move_2) { Str<2> a, b(a, 0); moved<2>(a, b); }
HARNESS(struct_move_3) { Str<3> a, b(a, 0); moved<3>(a, b); }
HARNESS(struct_data)
{
    Str<2> s; __xt_mark();
    { DynamicData a(s.type), b(a), c(std::move(a)); b = c; c = b.ref(); DynamicData d(b["a"]), e(c[1]); b["b"] = e; b = b; c["a"] = b["a"]; }
    __xt_noleak();
}
