// C04: equality and hash of structures over any member types.
#include "str.hpp"
template<int N> void eq(Str<N>& a, Str<N>& b)
{
    a.fill(); b.fill(); bool all = true; for(int k = 0; k < N; ++k) all &= __xt_v_eq(a.id(k), a.first(k), b.first(k));
    ASSERT(a.type.compare_instance(a.mem, b.mem) == all, "structures are equal exactly when all members are equal"); ASSERT(a.type.compare_instance(a.mem, a.mem) == a.type.compare_instance(a.mem, a.mem), "comparison has no effect");
    for(int k = 0; k < N; ++k) ASSERT(a.val(k) == a.first(k) && b.val(k) == b.first(k), "comparison changes nothing");
}
HARNESS(struct_eq_1) { Str<1> a, b(a, 0); eq<1>(a, b); }
HARNESS(struct_eq_2) { Str<2> a, b(a, 0); eq<2>(a, b); }
HARNESS(struct_eq_3) { Str<3> a, b(a, 0); eq<3>(a, b); }
template<int N> void hsh(Str<N>& a, Str<N>& b)
{
    a.fill(); b.fill(); for(int k = 0; k < N; ++k) ASSUME(__xt_v_hash(a.id(k), a.first(k)) == __xt_v_hash(a.id(k), b.first(k)));
    ASSERT(a.type.hash(a.mem) == b.type.hash(b.mem), "structures with members of equal hashes have equal hashes"); ASSERT(a.type.hash(a.mem) == a.type.hash(a.mem), "the hash is a function of the value");
}
HARNESS(struct_hash_1) { Str<1> a, b(a, 0); hsh<1>(a, b); }
HARNESS(struct_hash_2) { Str<2> a, b(a, 0); hsh<2>(a, b); }
HARNESS(struct_hash_3) { Str<3> a, b(a, 0); hsh<3>(a, b); }
HARNESS(struct_eq_0) { StructType t("S"); uint8_t x = 0, y = 1; ASSERT(t.compare_instance(&x, &y) && t.hash(&x) == t.hash(&y), "empty structures are equal"); }
