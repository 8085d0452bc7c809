// C04: equality and hash of maps.
#include "map.hpp"
extern "C" __attribute__((used)) void __xt_replace__ZN8eprosima6xtypes12Instanceable12hash_combineERmRKm(uint64_t& h, const uint64_t& v) { h = __xt_uf2("combine", h, v); }
bool pairwise(Map& a, Map& b) { uint32_t n = a.size(); return n == b.size() && (n == 0 || (__xt_forall_eq(a.k, a.at(0), b.at(0), n) & __xt_forall_eq(a.v, a.vat(0), b.vat(0), n))); }
struct Two : Map { Map b; Two() : b(*this, 0) { b.state(); } };
HARNESS(map_compare)
{
    Two q; bool all = pairwise(q, q.b); bool r = q.type.compare_instance(q.mem, q.b.mem);
    ASSERT(r == all, "maps are equal exactly when they have the same size and pairwise equal keys and values");
    uint32_t j = nd<uint32_t>();
    if(r && j < q.size()) { __xt_index(j); ASSERT(__xt_v_eq(q.k, q.kval(j), q.b.kval(j)) && __xt_v_eq(q.v, q.vval(j), q.b.vval(j)), "entries of equal maps are equal"); }
}
HARNESS(map_compare_bounds)
{
    Map q; Map b(q.k, q.key.kind(), q.v, q.value.kind(), nd<uint32_t>()); b.state();
    bool all = pairwise(q, b);
    ASSERT(q.type.compare_instance(q.mem, b.mem) == all, "equality does not depend on bounds or capacity");
}
HARNESS(map_hash)
{
    __xt_eqhash();
    Two q; __xt_index(0); ASSUME(pairwise(q, q.b));
    ASSERT(q.type.hash(q.mem) == q.b.type.hash(q.b.mem), "equal maps have equal hashes");
}
