// C08: discriminator and members of a union do not overlap and lie inside of it.
#include "uni.hpp"
template<class D> void parts(int v)
{
    auto& u = *new Uni<D>(v, primitive_type<D>()); ASSERT(u.type.memory_size() >= sizeof(D) + u.a.memory_size() && u.type.memory_size() >= sizeof(D) + u.b.memory_size(), "a union has room for its largest member");
    u.state(); if(u.sel < 0) return; WritableDynamicDataRef r(u.type, u.mem); WritableDynamicDataRef m = r[u.name(u.sel)]; P x = __xt_slots(u.m(u.sel).id_, 1); uint64_t y = __xt_val(u.m(u.sel).id_, x); u.m(u.sel).destroy_instance(m.instance_); u.m(u.sel).copy_instance(m.instance_, x);
    ASSERT(u.now() == u.disc && r.d().template value<D>() == u.disc, "writing the active member leaves the discriminator"); ASSERT(u.val(u.sel) == y, "a written member is the stored one"); ASSERT(static_cast<const ReadableDynamicDataRef&>(r).d().instance_ == u.mem, "the discriminator is part of the union");
}
HARNESS(union_int32) { parts<int32_t>(0); } HARNESS(union_uint8) { parts<uint8_t>(1); } HARNESS(union_int64) { parts<int64_t>(2); } HARNESS(union_wchar) { parts<wchar_t>(0); }
