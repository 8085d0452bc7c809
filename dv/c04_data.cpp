// C04: == and != of data of an arbitrary type, and hash().
#include "data.hpp"
HARNESS(data_equal)
{
    Dat a; Dat b(a.id, a.type.kind()); bool e = __xt_v_eq(a.id, a.first, b.first);
    ASSERT((a.d == b.d) == e && (a.d.ref() == b.d.cref()) == e, "== is the equality of the type"); ASSERT((a.d != b.d) == !e, "!= is the negation of =="); ASSERT(a.val() == a.first && b.val() == b.first, "comparison changes nothing");
}
HARNESS(data_hash) { Dat a; ASSERT(a.d.hash() == __xt_v_hash(a.id, a.first), "hash() is the hash of the value"); ASSERT(a.val() == a.first, "hash() changes nothing"); }
