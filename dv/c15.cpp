// C15: primitive values read back as written, cast<T>() is the C++ conversion, a new data reads zero; every kind, every value.
#include "xtd.hpp"
using ldouble_t = long double;
template<class C> bool zero(C v) { return same(v, C()); }
#define KIND(C, T) \
    HARNESS(zero_##T) { DynamicData x(primitive_type<C>()); ASSERT(zero(x.value<C>()) && zero(C(x)), "a new primitive data reads zero"); } \
    HARNESS(value_##T) { C a = nd<C>(), b = nd<C>(); DynamicData x(primitive_type<C>()); x.value(a); ASSERT(same(x.value<C>(), a), "value() reads what value(v) wrote"); const DynamicData& c = x; ASSERT(same(c.value<C>(), a), "value() of a constant data"); \
        C i = x; ASSERT(same(i, a), "implicit conversion reads the value"); WritableDynamicDataRef r(x.ref()); ASSERT(same(r.value<C>(), a) && same(C(x.cref()), a), "references read the value"); \
        r.value(b); ASSERT(same(x.value<C>(), b) && same(r.value<C>(), b) && same(x.cref().value<C>(), b), "a value written through a reference is read everywhere"); } \
    HARNESS(assign_##T) { C a = nd<C>(), b = nd<C>(); DynamicData x(primitive_type<C>()); x = a; ASSERT(same(x.value<C>(), a), "value() reads what = wrote"); WritableDynamicDataRef r(x.ref()); r = b; ASSERT(same(x.value<C>(), b), "a value assigned through a reference is read from the data"); \
        x.value(x.value<C>()); ASSERT(same(x.value<C>(), b), "writing the own value keeps it"); } \
    HARNESS(other_##T) { C a = nd<C>(), b = nd<C>(); DynamicData x(primitive_type<C>()), y(primitive_type<C>()); x = a; y = b; ASSERT(same(x.value<C>(), a) && same(y.value<C>(), b), "data do not share values"); y = x; x = b; ASSERT(same(y.value<C>(), a), "an assigned data keeps its value"); } \
    HARNESS(alias_##T) { C a = nd<C>(); AliasType s(primitive_type<C>(), "s"), t(s, "t"); DynamicData x(t); ASSERT(zero(x.value<C>()), "a new aliased data reads zero"); x = a; ASSERT(same(x.value<C>(), a), "a data of aliased type reads back its value"); } \
    HARNESS(array_##T) { C a = nd<C>(), b = nd<C>(); ArrayType t(primitive_type<C>(), 3); DynamicData x(t); ASSERT(zero(x[1].value<C>()), "a new element reads zero"); x[0] = a; x[2] = b; ASSERT(same(x[0].value<C>(), a) && zero(x[1].value<C>()) && same(x[2].value<C>(), b), "elements read back"); \
        if constexpr(!std::is_same<C, bool>::value) { std::vector<C> v = x.as_vector<C>(); ASSERT(v.size() == 3 && same(C(v[0]), a) && zero(C(v[1])) && same(C(v[2]), b), "as_vector() reads the elements"); } } \
    HARNESS(sequence_##T) { C a = nd<C>(), b = nd<C>(); SequenceType t(primitive_type<C>(), nd<bool>() ? 2 : 0); DynamicData x(t); x.push(a); x.push(b); ASSERT(x.size() == 2 && same(x[0].value<C>(), a) && same(x[1].value<C>(), b), "pushed values read back"); x[0] = b; ASSERT(same(x[0].value<C>(), b) && same(x[1].value<C>(), b), "a written element reads back"); } \
    HARNESS(member_##T) { C a = nd<C>(); StructType t("t"); t.add_member("p", primitive_type<uint8_t>()); t.add_member("q", primitive_type<C>()); t.add_member("r", primitive_type<uint8_t>()); DynamicData x(t); uint8_t p = nd<uint8_t>(), r = nd<uint8_t>(); \
        x["p"] = p; x["r"] = r; ASSERT(zero(x["q"].value<C>()), "a new member reads zero"); x["q"] = a; ASSERT(same(x["q"].value<C>(), a) && same(x[1].value<C>(), a) && x["p"].value<uint8_t>() == p && x["r"].value<uint8_t>() == r, "a written member reads back"); } \
    CAST(C, T, bool, bool) CAST(C, T, char, char) CAST(C, T, char16_t, char16) CAST(C, T, wchar_t, wchar) CAST(C, T, int8_t, int8) CAST(C, T, uint8_t, uint8) CAST(C, T, int16_t, int16) CAST(C, T, uint16_t, uint16) CAST(C, T, int32_t, int32) CAST(C, T, uint32_t, uint32) \
    CAST(C, T, int64_t, int64) CAST(C, T, uint64_t, uint64) CAST(C, T, float, float) CAST(C, T, double, double) CAST(C, T, ldouble_t, ldouble)
template<class C, class U> bool ok_cast(C a)
{
    // conversions from floating point that do not fit are not defined by C++
    if constexpr(std::is_floating_point<C>::value && std::is_integral<U>::value && !std::is_same<U, bool>::value) return a >= C(-1) && a <= C(100); else return true;
}
#ifdef XT_NATIVE
#define OK_CAST(C, U, a) ok_cast<C, U>(a)
#else
#define OK_CAST(C, U, a) true
#endif
#define CAST(C, T, U, V) HARNESS(cast_##T##_##V) { C a = nd<C>(); ASSUME((OK_CAST(C, U, a))); DynamicData x(primitive_type<C>()); x = a; ASSERT(same(x.cast<U>(), static_cast<U>(a)), "cast gives the C++ conversion"); ASSERT(same(x.value<C>(), a), "cast leaves the value"); }
KIND(bool, bool) KIND(char, char) KIND(char16_t, char16) KIND(wchar_t, wchar) KIND(int8_t, int8) KIND(uint8_t, uint8) KIND(int16_t, int16) KIND(uint16_t, uint16) KIND(int32_t, int32) KIND(uint32_t, uint32) KIND(int64_t, int64) KIND(uint64_t, uint64)
KIND(float, float) KIND(double, double) KIND(ldouble_t, ldouble)
