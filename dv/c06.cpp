// C06: is_compatible() against its specification: primitives exhaustively, composite types over any content.
#include "str.hpp"
#include "map.hpp"
#include "seq.hpp"
#include "agg.hpp"
using TC = TypeConsistency; using TK = TypeKind;
static uint32_t n(TC c) { return uint32_t(c); }
static const uint32_t NONE = ~0u, SIGN = 1, WIDTH = 2, SEQ = 4, ARR = 8, STR = 16, NAMES = 32, MEMBERS = 64, MAPB = 128;
static uint32_t cmp(uint64_t a, uint64_t b) { return uint32_t(__xt_uf2("compat", a, b)); }
template<class C> constexpr bool uns() { return std::is_same<C, uint8_t>::value || std::is_same<C, uint16_t>::value || std::is_same<C, uint32_t>::value || std::is_same<C, uint64_t>::value; }
using ldouble = long double;
// ------------------------------------------------------------ primitives and enumerations
template<class A, class B> void prim()
{
    uint32_t e = std::is_same<A, B>::value ? 0 : (sizeof(A) != sizeof(B) ? WIDTH : 0) | (uns<A>() != uns<B>() ? SIGN : 0);
    ASSERT(n(primitive_type<A>().is_compatible(primitive_type<B>())) == e, "primitive types differ in width and sign only");
}
template<class A> void enu(const DynamicType& t, size_t w)
{
    uint32_t e = (sizeof(A) != w ? WIDTH : 0) | (uns<A>() ? 0 : SIGN);
    ASSERT(n(t.is_compatible(primitive_type<A>())) == e && n(primitive_type<A>().is_compatible(t)) == e, "an enumeration counts as an unsigned primitive");
}
template<class A> void prims()
{
    prim<A, bool>(); prim<A, char>(); prim<A, char16_t>(); prim<A, wchar_t>(); prim<A, int8_t>(); prim<A, uint8_t>(); prim<A, int16_t>(); prim<A, uint16_t>(); prim<A, int32_t>(); prim<A, uint32_t>(); prim<A, int64_t>(); prim<A, uint64_t>(); prim<A, float>(); prim<A, double>(); prim<A, ldouble>();
    EnumerationType<uint8_t> x("x"); EnumerationType<uint16_t> y("y"); EnumerationType<uint32_t> z("z"); enu<A>(x, 1); enu<A>(y, 2); enu<A>(z, 4);
    const DynamicType& p = primitive_type<A>(); AliasType s(p, "s"), t(s, "t"); ASSERT(n(p.is_compatible(t)) == 0 && n(t.is_compatible(p)) == 0 && n(s.is_compatible(t)) == 0, "an alias is its type"); ASSERT(n(x.is_compatible(t)) == n(x.is_compatible(p)), "an enumeration sees through aliases");
    StructType one("one"); one.add_member("m", p); ASSERT(n(one.is_compatible(p)) == 0 && n(p.is_compatible(one)) == 0 && n(x.is_compatible(one)) == n(x.is_compatible(p)), "a one-member structure stands for its member");
    Opaque o(any_id(), any_kind()); ASSUME(!o.is_primitive_type() && !o.is_enumerated_type()); ASSERT(n(p.is_compatible(o)) == NONE, "a constructed type is not compatible to a primitive"); ASSERT(n(x.is_compatible(o)) == NONE, "a constructed type is not compatible to an enumeration");
}
#define PRIM(T) HARNESS(prim_##T) { prims<T>(); }
PRIM(bool) PRIM(char) PRIM(char16_t) PRIM(wchar_t) PRIM(int8_t) PRIM(uint8_t) PRIM(int16_t) PRIM(uint16_t) PRIM(int32_t) PRIM(uint32_t) PRIM(int64_t) PRIM(uint64_t) PRIM(float) PRIM(double) PRIM(ldouble)
template<class A, class B> void enus(uint32_t e) { EnumerationType<A> x("x"); EnumerationType<B> y("y"); y.add_enumerator("v"); AliasType t(y, "t"); ASSERT(n(x.is_compatible(y)) == e && n(y.is_compatible(x)) == e && n(x.is_compatible(t)) == e && n(t.is_compatible(x)) == e, "enumerations differ in width only"); }
HARNESS(enumerations) { enus<uint8_t, uint8_t>(0); enus<uint16_t, uint16_t>(0); enus<uint32_t, uint32_t>(0); enus<uint8_t, uint16_t>(WIDTH); enus<uint8_t, uint32_t>(WIDTH); enus<uint16_t, uint32_t>(WIDTH); }
// ------------------------------------------------------------ strings
HARNESS(strings)
{
    uint32_t i = nd<uint32_t>(), j = nd<uint32_t>(); StringType a(0), b(0); WStringType c(0), d(0); String16Type e(0), f(0); a.bounds_ = c.bounds_ = e.bounds_ = i; b.bounds_ = d.bounds_ = f.bounds_ = j;
    uint32_t x = i == j ? 0 : STR; ASSERT(n(a.is_compatible(b)) == x && n(b.is_compatible(a)) == x, "strings differ in bounds only"); ASSERT(n(c.is_compatible(d)) == x && n(d.is_compatible(c)) == x, "wide strings differ in bounds only"); ASSERT(n(e.is_compatible(f)) == x && n(f.is_compatible(e)) == x, "UTF-16 strings differ in bounds only");
    ASSERT(n(a.is_compatible(c)) == NONE && n(c.is_compatible(e)) == NONE && n(e.is_compatible(a)) == NONE && n(a.is_compatible(e)) == NONE && n(c.is_compatible(a)) == NONE && n(e.is_compatible(c)) == NONE, "strings of different kinds are not compatible");
    AliasType t(b, "t"), u(t, "u"); ASSERT(n(a.is_compatible(u)) == x && n(u.is_compatible(a)) == x && n(t.is_compatible(u)) == 0, "an alias is its type"); StructType one("one"); one.add_member("m", b); ASSERT(n(a.is_compatible(one)) == x && n(one.is_compatible(a)) == x, "a one-member structure stands for its member");
}
HARNESS(strings_other) { uint32_t i = nd<uint32_t>(); StringType a(0); WStringType c(0); String16Type e(0); a.bounds_ = c.bounds_ = e.bounds_ = i; Opaque o(any_id(), any_kind()); ASSERT(o.kind() == TK::STRING_TYPE || n(a.is_compatible(o)) == NONE, "a string is compatible to strings only"); ASSERT(o.kind() == TK::WSTRING_TYPE || n(c.is_compatible(o)) == NONE, "a wide string is compatible to wide strings only"); ASSERT(o.kind() == TK::STRING16_TYPE || n(e.is_compatible(o)) == NONE, "a UTF-16 string is compatible to UTF-16 strings only"); }
// ------------------------------------------------------------ collections
template<class T> void through(const T& a, const T& b, uint32_t x)
{
    ASSERT(n(a.is_compatible(b)) == x, "collections differ in bounds and content"); AliasType t(b, "t"), u(t, "u"), v(a, "v");
    ASSERT(n(a.is_compatible(u)) == x && n(v.is_compatible(b)) == x && n(v.is_compatible(u)) == x, "an alias is its type"); ASSERT(n(a.is_compatible(u)) == x, "aliases of aliases are seen through");
}
HARNESS(sequences)
{
    Opaque o(any_id(), any_kind()), p(any_id(), any_kind()); uint32_t i = nd<uint32_t>(), j = nd<uint32_t>(); SequenceType a(o, 0), b(p, 0); a.bounds_ = i; b.bounds_ = j; uint32_t x = cmp(o.id_, p.id_) | (i == j ? 0 : SEQ); through(a, b, x);
    ASSUME(cmp(o.id_, p.id_) == cmp(p.id_, o.id_)); ASSERT(n(b.is_compatible(a)) == x, "the answer does not depend on which type is asked");
}
HARNESS(arrays)
{
    Opaque o(any_id(), any_kind()), p(any_id(), any_kind()); uint32_t i = nd<uint32_t>(), j = nd<uint32_t>(); ArrayType a(o, 1), b(p, 1); a.dimension_ = i; b.dimension_ = j; uint32_t x = cmp(o.id_, p.id_) | (i == j ? 0 : ARR); through(a, b, x);
    ASSUME(cmp(o.id_, p.id_) == cmp(p.id_, o.id_)); ASSERT(n(b.is_compatible(a)) == x, "the answer does not depend on which type is asked");
}
HARNESS(maps)
{
    Opaque o(any_id(), any_kind()), p(any_id(), any_kind()), k(any_id(), any_kind()), l(any_id(), any_kind()); uint32_t i = nd<uint32_t>(), j = nd<uint32_t>(); MapType a(k, o, 0), b(l, p, 0); a.bounds_ = i; b.bounds_ = j; uint32_t x = cmp(o.id_, p.id_) | cmp(k.id_, l.id_) | (i == j ? 0 : MAPB); through(a, b, x);
    ASSUME(cmp(o.id_, p.id_) == cmp(p.id_, o.id_)); ASSUME(cmp(k.id_, l.id_) == cmp(l.id_, k.id_)); ASSERT(n(b.is_compatible(a)) == x, "the answer does not depend on which type is asked");
}
HARNESS(pairs) { Opaque o(any_id(), any_kind()), p(any_id(), any_kind()), k(any_id(), any_kind()), l(any_id(), any_kind()); PairType a(k, o), b(l, p); through(a, b, cmp(k.id_, l.id_) | cmp(o.id_, p.id_)); }
HARNESS(collections_other)
{
    Opaque o(any_id(), any_kind()), e(any_id(), any_kind()); SequenceType s(e, 0); ArrayType a(e, 1); MapType m(e, e, 0); PairType p(e, e); uint32_t i = nd<uint32_t>(); s.bounds_ = a.dimension_ = m.bounds_ = i;
    ASSERT(o.kind() == TK::SEQUENCE_TYPE || n(s.is_compatible(o)) == NONE, "a sequence is compatible to sequences only"); ASSERT(o.kind() == TK::ARRAY_TYPE || n(a.is_compatible(o)) == NONE, "an array is compatible to arrays only");
    ASSERT(o.kind() == TK::MAP_TYPE || n(m.is_compatible(o)) == NONE, "a map is compatible to maps only"); ASSERT(o.kind() == TK::PAIR_TYPE || n(p.is_compatible(o)) == NONE, "a pair is compatible to pairs only");
    ASSERT(n(s.is_compatible(a)) == NONE && n(a.is_compatible(s)) == NONE && n(m.is_compatible(s)) == NONE && n(s.is_compatible(m)) == NONE && n(p.is_compatible(m)) == NONE && n(a.is_compatible(m)) == NONE && n(m.is_compatible(a)) == NONE, "collections of different kinds are not compatible");
}
HARNESS(aliases) { Opaque o(any_id(), any_kind()), p(any_id(), any_kind()); AliasType a(o, "a"), b(a, "b"), c(p, "c"); uint32_t x = cmp(o.id_, p.id_); ASSERT(n(a.is_compatible(p)) == x && n(b.is_compatible(p)) == x && n(a.is_compatible(c)) == x && n(b.is_compatible(c)) == x, "an alias is its type"); }
// ------------------------------------------------------------ structures
template<int N, int M> void structs(bool alias, Str<N>&& a = Str<N>(), bool any = true)
{
    StructType t("T"); bool same[M + 1]; uint64_t id[M + 1]; static const char* other[] = {"x", "y", "z"};
    for(int k = 0; k < M; ++k) { Opaque o(any_id(), any ? any_kind() : TK::SEQUENCE_TYPE); id[k] = o.id_; same[k] = nd<bool>(); t.add_member(same[k] ? Str<N>::name(k) : other[k], static_cast<const DynamicType&>(o)); }
    uint32_t e = N == M ? 0 : MEMBERS; bool none = false;
    for(int k = 0; k < N && k < M; ++k) { uint32_t c = cmp(a.id(k), id[k]); none |= c == NONE; e |= c | (same[k] ? 0 : NAMES); }
    if(none) e = NONE;
    if(alias) { AliasType x(t, "x"), y(x, "y"), z(a.type, "z"); ASSERT(n(a.type.is_compatible(y)) == e && n(z.is_compatible(x)) == e, "structures differ in their members; an alias is its type"); }
    else ASSERT(n(a.type.is_compatible(t)) == e, "structures differ in the names and types of the members at the same position, and in further members");
}
HARNESS(structs_22) { structs<2, 2>(false); }
HARNESS(structs_33) { structs<3, 3>(false, Str<3>(TK::SEQUENCE_TYPE), false); }
HARNESS(structs_23) { structs<2, 3>(false, Str<2>(TK::SEQUENCE_TYPE), false); }
HARNESS(structs_32) { structs<3, 2>(false, Str<3>(TK::SEQUENCE_TYPE), false); }
HARNESS(structs_22_alias) { structs<2, 2>(true, Str<2>(TK::SEQUENCE_TYPE), false); }
HARNESS(structs_self) { Str<3> a; Str<1> b; StructType e("e"), f("f"); ASSERT(n(a.type.is_compatible(a.type)) == 0 && n(b.type.is_compatible(b.type)) == 0 && n(e.is_compatible(f)) == 0, "a structure is equal to itself"); StructType c(a.type), d(b.type); ASSERT(n(a.type.is_compatible(c)) == 0 && n(c.is_compatible(a.type)) == 0 && n(d.is_compatible(b.type)) == 0, "a structure is equal to its copy"); }
HARNESS(structs_other) { Str<2> a; Opaque o(any_id(), any_kind()); ASSERT(n(a.type.is_compatible(o)) == NONE, "a structure of several members is compatible to structures only"); StructType e("e"); ASSERT(n(e.is_compatible(o)) == NONE, "an empty structure is compatible to structures only"); }
HARNESS(one_member)
{
    Str<1> a; Opaque o(any_id(), any_kind()); uint64_t i = o.id_; ASSUME(cmp(i, a.id(0)) == cmp(a.id(0), i)); ASSERT(n(a.type.is_compatible(o)) == cmp(a.id(0), i), "a one-member structure stands for its member");
    SequenceType s(o, 0); uint32_t x = nd<uint32_t>(); s.bounds_ = x; SequenceType t(a.m(0), 0); StructType u("u"); u.add_member("m", t); uint32_t e = cmp(a.id(0), i) | (x == 0 ? 0 : SEQ); ASSERT(n(u.is_compatible(s)) == e && n(s.is_compatible(u)) == e, "a one-member structure stands for its member on either side");
}
