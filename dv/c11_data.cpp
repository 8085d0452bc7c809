// C11: lifetime of data of an arbitrary type through the API: nothing is left, nothing destroyed twice.
#include "data.hpp"
#define LIFE(NAME, ...) HARNESS(NAME) { Opaque t(any_id(), any_kind()); reflexive(t.id_); P p = __xt_slots(t.id_, 1); WritableDynamicDataRef s(t, p); __xt_mark(); { __VA_ARGS__ } ASSERT(__xt_live(t.id_, p), "a data that is only referred to stays alive"); __xt_noleak(); }
LIFE(life_default, DynamicData a(t);)
LIFE(life_copy, DynamicData a(static_cast<const ReadableDynamicDataRef&>(s)); DynamicData b(a); DynamicData c(a.ref()); DynamicData e(b.cref());)
LIFE(life_move, DynamicData a(static_cast<const ReadableDynamicDataRef&>(s)); DynamicData b(std::move(a)); DynamicData c(std::move(b));)
LIFE(life_assign, DynamicData a(t); DynamicData b(static_cast<const ReadableDynamicDataRef&>(s)); a = b; b = s; a = a; a = b.ref(); a = a.cref();)
LIFE(life_ref_assign, DynamicData a(t); WritableDynamicDataRef r(a.ref()); r = s; r = r; s = r;)
LIFE(life_refs, DynamicData a(static_cast<const ReadableDynamicDataRef&>(s)); WritableDynamicDataRef r(a.ref()); ReadableDynamicDataRef c(r); ReadableDynamicDataRef m(std::move(c)); WritableDynamicDataRef n(std::move(r));)
HARNESS(life_convert)
{
    Opaque t(any_id(), any_kind()), u(any_id(), any_kind()); P p = __xt_slots(t.id_, 1); WritableDynamicDataRef s(t, p); uint64_t x = __xt_val(t.id_, p);
    bool ok = uint32_t(__xt_uf2("compat", u.id_, t.id_)) != uint32_t(TypeConsistency::NONE);
    __xt_mark();
    { bool made = false; bool r = rejects([&]{ DynamicData d(s, u); made = true; ASSERT(__xt_val(u.id_, d.instance_) == __xt_v_conv(u.id_, x, t.id_), "a converted data has the converted value"); }); ASSERT(r == !ok && made == ok, "a conversion is refused exactly between incompatible types"); }
    ASSERT(__xt_live(t.id_, p) && __xt_val(t.id_, p) == x, "the source of a conversion is unchanged"); __xt_noleak();
}
