// C03: copy and move of unions over any member types and labels.
#include "uni.hpp"
HARNESS(union_copy)
{
    auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); u.state(); auto& w = *new Uni<int32_t>(u, 0); w.reserve(); w.type.copy_instance(w.mem, u.mem);
    w.sel = u.sel; ASSERT(w.now() == u.disc, "a copied union has the discriminator of its source"); w.corresponds(u.sel); if(u.sel >= 0) ASSERT(w.val(u.sel) == u.first(), "a copied union has the member of its source"); u.unchanged();
    int k = nd<bool>(); w.type.select_case(w.mem, w.name(k)); u.unchanged(); u.release(); w.corresponds(k);
}
HARNESS(union_move)
{
    auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); u.state(); auto& w = *new Uni<int32_t>(u, 0); bool init = nd<bool>(); if(init) w.state(); else w.reserve(); w.type.move_instance(w.mem, u.mem, init);
    ASSERT(w.now() == u.disc, "a moved union has the discriminator of its source"); w.corresponds(u.sel); if(u.sel >= 0) ASSERT(w.val(u.sel) == u.first(), "a moved union has the member of its source"); u.corresponds(u.owner(u.now())); u.release(); w.corresponds(w.owner(w.now()));
}
HARNESS(union_data)
{
    auto& u = *new Uni<int32_t>(0, primitive_type<int32_t>()); u.state(); WritableDynamicDataRef s(u.type, u.mem); const ReadableDynamicDataRef& c = s; DynamicData d(c); DynamicData e(u.type); e = d;
    P m = u.mem; u.mem = e.instance_; u.unchanged(); u.mem = d.instance_; u.unchanged(); int k = nd<bool>(); d[u.name(k)]; u.mem = e.instance_; u.unchanged(); u.mem = m; u.unchanged();
}
