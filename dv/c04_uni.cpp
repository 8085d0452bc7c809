// C04: equality and hash of unions over any member types and labels.
#include "uni.hpp"
HARNESS(union_eq)
{
    auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); u.state(); auto& w = *new Uni<int32_t>(u, 0); w.state();
    bool e = u.disc == w.disc && (u.sel < 0 || __xt_v_eq(u.m(u.sel).id_, u.first(), w.first())); ASSERT(u.type.compare_instance(u.mem, w.mem) == e, "unions are equal exactly when discriminators and active members are"); u.unchanged(); w.unchanged();
}
HARNESS(union_hash)
{
    auto& u = *new Uni<int32_t>(nd<bool>() ? 2 : 0, primitive_type<int32_t>()); u.state(); auto& w = *new Uni<int32_t>(u, 0); w.state(); ASSUME(u.disc == w.disc); if(u.sel >= 0) ASSUME(__xt_v_hash(u.m(u.sel).id_, u.first()) == __xt_v_hash(u.m(u.sel).id_, w.first()));
    ASSERT(u.type.hash(u.mem) == w.type.hash(w.mem), "unions with equal discriminator and active member have equal hashes"); u.unchanged(); w.unchanged();
}
