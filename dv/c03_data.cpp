// C03: data of an arbitrary type through the API: construction, assignment, independence. The operations of the type are known by their contract.
#include "data.hpp"
HARNESS(data_default) { Opaque t(any_id(), any_kind()); DynamicData d(t); ASSERT(value_of(t.id_, d) == __xt_v_default(t.id_), "a new data has the default value of its type"); ASSERT(Opaque::id(d.type()) == t.id_, "a data has the type it was created with"); }
HARNESS(data_copy)
{
    Dat a; ASSERT(a.val() == a.first, "a data made from a reference has the value referred to"); ASSERT(__xt_val(a.id, a.src) == a.first, "the data referred to keeps its value"); ASSERT(a.d.instance_ != a.src, "a copy has its own storage");
    DynamicData b(a.d); ASSERT(value_of(a.id, b) == a.first && a.val() == a.first, "a copy is equal to its source");
    uint64_t x = change(a.type, b); ASSERT(a.val() == a.first && __xt_val(a.id, a.src) == a.first, "a change of the copy is not visible in the source");
    uint64_t y = change(a.type, a.d); ASSERT(value_of(a.id, b) == x && a.val() == y && __xt_val(a.id, a.src) == a.first, "a change of the source is not visible in the copy");
}
HARNESS(data_from_ref)
{
    Dat a; WritableDynamicDataRef w(a.d); DynamicData b(static_cast<ReadableDynamicDataRef>(w)), c(std::move(w)), e(a.d.cref());
    ASSERT(value_of(a.id, b) == a.first && value_of(a.id, c) == a.first && value_of(a.id, e) == a.first && a.val() == a.first, "a data made from a reference is a copy");
    ASSERT(b.instance_ != a.d.instance_ && c.instance_ != a.d.instance_ && e.instance_ != a.d.instance_, "a data made from a reference has its own storage");
}
HARNESS(data_move) { Dat a; DynamicData b(std::move(a.d)); ASSERT(value_of(a.id, b) == a.first, "a moved data has the value of its source"); ASSERT(b.instance_ != a.d.instance_ && __xt_live(a.id, a.d.instance_), "the source stays a data of its own"); uint64_t x = change(a.type, a.d); ASSERT(value_of(a.id, b) == a.first && a.val() == x, "a change of the moved source is not visible"); }
HARNESS(data_assign)
{
    Dat a; Dat b(a.id, a.type.kind()); uint64_t y = b.first; b.d = a.d;
    ASSERT(b.val() == a.first && a.val() == a.first, "an assigned data is equal to its source"); (void)y;
    uint64_t x = change(a.type, b.d); ASSERT(a.val() == a.first, "a change of the target is not visible in the source"); change(a.type, a.d); ASSERT(b.val() == x, "a change of the source is not visible in the target");
}
HARNESS(data_assign_ref) { Dat a; Dat b(a.id, a.type.kind()); b.d = a.d.ref(); ASSERT(b.val() == a.first && a.val() == a.first, "a data assigned from a reference is equal to its source"); Dat c(a.id, a.type.kind()); c.d = a.d.cref(); ASSERT(c.val() == a.first && a.val() == a.first, "a data assigned from a constant reference is equal to its source"); }
HARNESS(ref_assign) { Dat a; Dat b(a.id, a.type.kind()); WritableDynamicDataRef r(a.d.ref()), s(b.d.ref()); s = r; ASSERT(b.val() == a.first && a.val() == a.first, "assignment through references assigns the data"); ASSERT(s.instance_ == b.d.instance_ && r.instance_ == a.d.instance_, "a reference keeps denoting its data"); }
HARNESS(self_assign) { Dat a; DynamicData& b = a.d; a.d = b; ASSERT(a.val() == a.first, "self assignment keeps the value"); a.d = a.d.ref(); ASSERT(a.val() == a.first, "assignment from a reference to itself keeps the value"); WritableDynamicDataRef r(a.d.ref()), s(a.d.ref()); r = s; ASSERT(a.val() == a.first, "assignment between references to the same data keeps the value"); a.d = a.d.cref(); ASSERT(a.val() == a.first, "assignment from a constant reference to itself keeps the value"); }
HARNESS(ref_copy) { Dat a; WritableDynamicDataRef r(a.d.ref()), s(r); ReadableDynamicDataRef t(a.d), u(std::move(t)); ASSERT(r.instance_ == a.d.instance_ && s.instance_ == a.d.instance_ && u.instance_ == a.d.instance_, "references denote the data"); uint64_t x = change(a.type, s); ASSERT(a.val() == x, "a change through a reference changes the data"); }
HARNESS(assign_other_type)
{
    Dat a; Dat b; ASSUME(uint32_t(__xt_uf2("compat", b.id, a.id)) != 0); uint64_t y = b.first;
    ASSERT(rejects([&]{ b.d = a.d; }) && rejects([&]{ b.d = a.d.ref(); }) && rejects([&]{ WritableDynamicDataRef r(b.d.ref()); r = a.d.ref(); }), "a data of a type that is not equal is refused"); ASSERT(b.val() == y && a.val() == a.first, "a refused assignment changes nothing");
}
