// C12: refused operations on collections, pairs, structures and unions over arbitrary types leave the data as it was.
#include "data.hpp"
#include "seq.hpp"
#include "agg.hpp"
#include "map.hpp"
#include "str.hpp"
// a sequence before a refused operation
struct Was
{
    Seq& q; uint32_t n, c, j; P m; uint64_t v; bool any;
    Was(Seq& s) : q(s), n(s.size()), c(s.s().capacity_), j(nd<uint32_t>()), m(s.s().memory_), v(0), any(n > 0) { if(any) { ASSUME(j < n); __xt_index(j); v = q.val(j); } }
    void same() { ASSERT(q.size() == n && q.s().capacity_ == c && q.s().memory_ == m, "a refused operation leaves the sequence"); if(any) ASSERT(q.val(j) == v, "a refused operation leaves the elements"); }
};
HARNESS(seq_index) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); uint32_t i = nd<uint32_t>(); bool c = nd<bool>(); bool no = rejects([&]{ if(c) r[i]; else r.cref()[i]; }); ASSERT(no == (i >= w.n), "exactly the indices below the size are accepted"); w.same(); }
HARNESS(seq_index_signed) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); int32_t i = nd<int32_t>(); bool no = rejects([&]{ r[i]; }); ASSERT(no == (i < 0 || uint32_t(i) >= w.n), "a negative index is refused"); w.same(); }
HARNESS(seq_bound) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); reflexive(q.id); ASSUME(w.n == q.limit()); Dat v(q.id, q.elem.kind()); ASSERT(rejects([&]{ r.push(v.d); }), "a push over the bound is refused"); ASSERT(v.val() == v.first, "the refused value is left"); w.same(); }
HARNESS(seq_resize) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); uint64_t m = nd<uint64_t>(); ASSUME(m > q.limit()); ASSERT(rejects([&]{ r.resize(m); }), "a size over the bound is refused"); w.same(); }
HARNESS(seq_other) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); Dat v; ASSUME(uint32_t(__xt_uf2("compat", q.id, v.id)) != 0); ASSERT(rejects([&]{ r.push(v.d); }), "an element of another type is refused"); ASSERT(v.val() == v.first, "the refused value is left"); w.same(); }
template<class C> void seq_value(TypeKind k) { Seq q; ASSUME(q.elem.kind() != k); WritableDynamicDataRef r(q.type, q.mem); Was w(q); C v = nd<C>(); ASSERT(rejects([&]{ r.push(v); }), "a value of another kind is refused"); w.same(); }
HARNESS(seq_bool) { seq_value<bool>(TypeKind::BOOLEAN_TYPE); } HARNESS(seq_uint32) { seq_value<uint32_t>(TypeKind::UINT_32_TYPE); } HARNESS(seq_int32) { seq_value<int32_t>(TypeKind::INT_32_TYPE); } HARNESS(seq_double) { seq_value<double>(TypeKind::FLOAT_64_TYPE); } HARNESS(seq_char) { seq_value<char>(TypeKind::CHAR_8_TYPE); }
HARNESS(seq_string) { Seq q; ASSUME(q.elem.kind() != TypeKind::STRING_TYPE); WritableDynamicDataRef r(q.type, q.mem); Was w(q); ASSERT(rejects([&]{ r.push(std::string("z")); }), "a value of another kind is refused"); w.same(); }
HARNESS(seq_wstring) { Seq q; ASSUME(q.elem.kind() != TypeKind::WSTRING_TYPE); WritableDynamicDataRef r(q.type, q.mem); Was w(q); ASSERT(rejects([&]{ r.push(std::wstring(1, L'z')); }), "a value of another kind is refused"); w.same(); }
HARNESS(seq_not) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); DynamicData x(primitive_type<int32_t>()); ASSERT(rejects([&]{ r["a"]; }) && rejects([&]{ r.at(x); }) && rejects([&]{ r[x]; }) && rejects([&]{ r.insert(x); }) && rejects([&]{ r.has_key(x); }) && rejects([&]{ r.d(); }) && rejects([&]{ r.d(1); }) && rejects([&]{ r.current_case(); }) && rejects([&]{ r.items(); }) && rejects([&]{ r.value<int32_t>(); }) && rejects([&]{ r = int32_t(7); }) && rejects([&]{ r.value(std::string("z")); }) && rejects([&]{ r.cast<int32_t>(); }), "an operation of another kind is refused"); w.same(); }
HARNESS(seq_assign) { Seq q; WritableDynamicDataRef r(q.type, q.mem); Was w(q); Dat v; ASSUME(v.type.kind() != TypeKind::SEQUENCE_TYPE); ASSERT(rejects([&]{ r = v.d; }), "a data of another type is refused"); ASSERT(v.val() == v.first, "the refused value is left"); w.same(); }
HARNESS(arr_index) { Arr a; WritableDynamicDataRef r(a.type, a.mem); uint64_t i = nd<uint64_t>(); uint32_t j = nd<uint32_t>(); ASSUME(j < a.n); __xt_index(j); uint64_t v = a.val(j); bool no = rejects([&]{ r[i]; }); ASSERT(no == (i >= a.n), "exactly the indices below the dimension are accepted"); ASSERT(a.val(j) == v, "a refused operation leaves the elements"); }
HARNESS(arr_not) { Arr a; WritableDynamicDataRef r(a.type, a.mem); uint32_t j = nd<uint32_t>(); ASSUME(j < a.n); __xt_index(j); uint64_t v = a.val(j); DynamicData x(primitive_type<int32_t>()); ASSERT(rejects([&]{ r["a"]; }) && rejects([&]{ r.at(x); }) && rejects([&]{ r[x]; }) && rejects([&]{ r.insert(x); }) && rejects([&]{ r.push(x); }) && rejects([&]{ r.push(int32_t(1)); }) && rejects([&]{ r.resize(7); }) && rejects([&]{ r.d(); }) && rejects([&]{ r.current_case(); }) && rejects([&]{ r.items(); }) && rejects([&]{ r = int32_t(7); }), "an operation of another kind is refused"); ASSERT(a.val(j) == v, "a refused operation leaves the elements"); }
HARNESS(arr_none) { Opaque t(any_id(), any_kind()); ASSERT(rejects([&]{ ArrayType a(t, std::vector<uint32_t>()); }), "an array without dimensions is refused"); }
HARNESS(pair_index) { Par p; WritableDynamicDataRef r(p.type, p.mem); uint64_t i = nd<uint64_t>(), x = p.v1(), y = p.v2(); bool no = rejects([&]{ r[i]; }); ASSERT(no == (i >= 2), "a pair has two elements"); ASSERT(p.v1() == x && p.v2() == y, "a refused operation leaves the pair"); ASSERT(rejects([&]{ r["first"]; }) && rejects([&]{ r.begin(); }) && rejects([&]{ r.items(); }) && rejects([&]{ r.bounds(); }) && rejects([&]{ r = int32_t(7); }), "an operation of another kind is refused"); ASSERT(p.v1() == x && p.v2() == y, "a refused operation leaves the pair"); }
// a map before a refused operation
struct MWas
{
    Map& q; uint32_t n, c, j; P m; uint64_t kv, vv; bool any;
    MWas(Map& s) : q(s), n(s.size()), c(s.s().capacity_), j(nd<uint32_t>()), m(s.s().memory_), kv(0), vv(0), any(n > 0) { if(any) { ASSUME(j < n); __xt_index(j); kv = q.kval(j); vv = q.vval(j); } }
    void same() { ASSERT(q.size() == n && q.s().capacity_ == c && q.s().memory_ == m, "a refused operation leaves the map"); if(any) ASSERT(q.kval(j) == kv && q.vval(j) == vv, "a refused operation leaves the entries"); }
};
HARNESS(map_index) { Map q; WritableDynamicDataRef r(q.type, q.mem); MWas w(q); uint32_t i = nd<uint32_t>(); ASSERT(rejects([&]{ r[i]; }) && rejects([&]{ r.cref()[i]; }), "a map has no indices"); w.same(); }
template<class F> void map_missing(F at)
{
    Map q; reflexive(q.k); WritableDynamicDataRef r(q.type, q.mem); MWas w(q); Dat x(q.k, q.key.kind()); uint64_t h = __xt_v_hash(q.k, x.first); P p = nullptr;
    bool no = rejects([&]{ p = at(r, x.d); });
    if(no) ASSERT(!(w.any && q.h(w.j) == h), "a key of the map is not refused"); else { ASSERT(w.any, "nothing is found in an empty map"); P e = p - q.key.memory_size(); uint64_t i = uint64_t(e - q.s().memory_) / q.s().block_size_; ASSERT(i < w.n && e == q.at(i) && q.h(i) == h, "only a key of the map is accepted"); }
    w.same(); ASSERT(x.val() == x.first, "the key is left");
}
HARNESS(map_missing) { map_missing([](WritableDynamicDataRef& r, DynamicData& x) { return r.at(x).instance_; }); }
HARNESS(map_missing_const) { map_missing([](WritableDynamicDataRef& r, DynamicData& x) { return r.cref().at(x).instance_; }); }
HARNESS(map_other) { Map q; WritableDynamicDataRef r(q.type, q.mem); MWas w(q); Dat x; ASSUME(uint32_t(__xt_uf2("compat", q.k, x.id)) != 0); ASSERT(rejects([&]{ r[x.d]; }) && rejects([&]{ r.at(x.d); }) && rejects([&]{ r.cref().at(x.d); }) && rejects([&]{ r.has_key(x.d); }), "a key of another type is refused"); w.same(); ASSERT(x.val() == x.first, "the key is left"); }
HARNESS(map_full)
{
    Map q; reflexive(q.k); WritableDynamicDataRef r(q.type, q.mem); MWas w(q); Dat x(q.k, q.key.kind()); uint64_t h = __xt_v_hash(q.k, x.first); ASSUME(w.n == q.limit()); P p = nullptr;
    bool no = rejects([&]{ p = r[x.d].instance_; }); 
    if(no) ASSERT(!(w.any && q.h(w.j) == h), "a key of the map is not refused"); else { P e = p - q.key.memory_size(); uint64_t i = uint64_t(e - q.s().memory_) / q.s().block_size_; ASSERT(i < w.n && e == q.at(i) && q.h(i) == h, "a new key over the bound is refused"); }
    w.same(); ASSERT(x.val() == x.first, "the key is left");
}
HARNESS(map_full_insert) { Map q; reflexive(q.k); reflexive(q.v); MWas w(q); ASSUME(w.n == q.limit()); WritableDynamicDataRef r(q.type, q.mem); P p = __xt_slots2(q.k, q.v, 1); WritableDynamicDataRef x(q.type.content_type(), p); ASSERT(!r.insert(x), "an entry over the bound is refused"); w.same(); }
HARNESS(map_not) { Map q; WritableDynamicDataRef r(q.type, q.mem); MWas w(q); Dat x; ASSUME(x.type.kind() != TypeKind::PAIR_TYPE); ASSERT(rejects([&]{ r.insert(x.d); }), "what is not a pair is refused"); w.same(); ASSERT(rejects([&]{ r["a"]; }) && rejects([&]{ r.push(x.d); }) && rejects([&]{ r.push(int32_t(1)); }) && rejects([&]{ r.resize(7); }) && rejects([&]{ r.d(); }) && rejects([&]{ r.current_case(); }) && rejects([&]{ r.items(); }) && rejects([&]{ r = int32_t(7); }) && rejects([&]{ r.value<uint8_t>(); }), "an operation of another kind is refused"); w.same(); }
HARNESS(str_index) { Str<2> s; s.fill(); WritableDynamicDataRef r(s.type, s.mem); uint64_t i = nd<uint64_t>(); bool no = rejects([&]{ r[i]; }); ASSERT(no == (i >= 2), "exactly the indices of members are accepted"); for(int k = 0; k < 2; ++k) ASSERT(s.val(k) == s.first(k), "a refused operation leaves the members"); }
HARNESS(str_name) { Str<2> s; s.fill(); WritableDynamicDataRef r(s.type, s.mem); ASSERT(rejects([&]{ r["z"]; }) && rejects([&]{ r.cref()["z"]; }) && rejects([&]{ r.get_member("z"); }) && rejects([&]{ r[""]; }) && rejects([&]{ r["ab"]; }), "an unknown member is refused"); DynamicData x(primitive_type<int32_t>()); ASSERT(rejects([&]{ r.at(x); }) && rejects([&]{ r.push(x); }) && rejects([&]{ r.resize(7); }) && rejects([&]{ r.begin(); }) && rejects([&]{ r.bounds(); }) && rejects([&]{ r.d(); }) && rejects([&]{ r.d(1); }) && rejects([&]{ r.current_case(); }) && rejects([&]{ r = int32_t(7); }) && rejects([&]{ r.cast<int32_t>(); }), "an operation of another kind is refused"); for(int k = 0; k < 2; ++k) ASSERT(s.val(k) == s.first(k), "a refused operation leaves the members"); }
HARNESS(str_assign) { Str<2> s; s.fill(); WritableDynamicDataRef r(s.type, s.mem); Dat x; ASSUME(uint32_t(__xt_uf2("compat", s.id(1), x.id)) != 0); ASSERT(rejects([&]{ r["b"] = x.d; }) && rejects([&]{ r[1] = x.d; }), "a member refuses a data of another type"); for(int k = 0; k < 2; ++k) ASSERT(s.val(k) == s.first(k), "a refused operation leaves the members"); ASSERT(rejects([&]{ r = x.d; }), "a structure refuses a data of another kind"); for(int k = 0; k < 2; ++k) ASSERT(s.val(k) == s.first(k), "a refused operation leaves the members"); }
HARNESS(incompatible) { Dat a; Opaque t(any_id(), any_kind()); ASSUME(uint32_t(__xt_uf2("compat", t.id_, a.id)) == uint32_t(TypeConsistency::NONE)); __xt_mark(); ASSERT(rejects([&]{ DynamicData x(a.d, t); }), "a data of an incompatible type is refused"); __xt_noleak(); ASSERT(a.val() == a.first, "the refused data is left"); }
// ------------------------------------------------------------ type builders
template<int N> void same_type(Str<N>& s, size_t size) { ASSERT(s.type.members().size() == N && s.type.indexes_.size() == N && s.type.memory_size() == size && !s.type.has_member("z"), "a refused declaration adds no member"); for(int k = 0; k < N; ++k) { const Member& m = s.type.member(size_t(k)); ASSERT(m.name() == s.name(k) && Opaque::id(m.type()) == s.id(k) && &s.type.member(s.name(k)) == &m && s.type.has_member(s.name(k)), "a refused declaration leaves the members"); } }
HARNESS(member_twice) { Str<2> s; size_t n = s.type.memory_size(); Opaque t(any_id(), any_kind()); ASSERT(rejects([&]{ s.type.add_member(s.name(nd<bool>()), static_cast<const DynamicType&>(t)); }), "a used name is refused"); same_type<2>(s, n); ASSERT(rejects([&]{ s.type.add_member(Member("a", t)); }) && rejects([&]{ s.type.add_member(Member("b", t).key(true)); }) && rejects([&]{ s.type.add_member("b", primitive_type<int32_t>()); }), "a used name is refused"); same_type<2>(s, n); }
HARNESS(member_inherited_twice) { Str<2> s(Str<2>::Inherit(), 1); size_t n = s.type.memory_size(); Opaque t(any_id(), any_kind()); ASSERT(rejects([&]{ s.type.add_member("a", static_cast<const DynamicType&>(t)); }) && rejects([&]{ s.type.add_member("b", static_cast<const DynamicType&>(t)); }), "a used name is refused"); same_type<2>(s, n); }
HARNESS(member_unknown) { Str<2> s; size_t n = s.type.memory_size(), i = nd<uint64_t>(); ASSERT(rejects([&]{ s.type.member(i); }) == (i >= 2), "exactly the indices of members are accepted"); ASSERT(rejects([&]{ s.type.member("z"); }) && rejects([&]{ s.type.member(""); }) && rejects([&]{ s.type.parent(); }), "what the structure does not have is refused"); same_type<2>(s, n); }
HARNESS(parent_twice) { Str<1> p; StructType t("T", &p.type), q("Q"); ASSERT(rejects([&]{ t.AggregationType::parent(q); }), "a second parent is refused"); ASSERT(t.members().size() == 1 && &t.parent() != &q && t.parent().name() == "S" && t.has_member("a"), "a refused parent leaves the type"); Str<2> s; size_t n = s.type.memory_size(); ASSERT(rejects([&]{ s.type.AggregationType::parent(p.type); }), "a parent after members is refused"); same_type<2>(s, n); ASSERT(!s.type.has_parent(), "a refused parent leaves the type"); }
HARNESS(node_parent) { Opaque t(any_id(), any_kind()); Dat a; bool no = false; a.d.cref().for_each([&](const ReadableDynamicDataRef::ReadableNode& n) { no = !n.has_parent() && rejects([&]{ n.parent(); }); }); ASSERT(no, "the root of a traversal has no parent"); ASSERT(a.val() == a.first, "a refused operation changes nothing"); }
