// C12: what violates a precondition raises an error and changes nothing: the API of data over every kind.
#include "data.hpp"
static bool agg(TypeKind k) { return (uint32_t(k) & 0x0100) != 0; }
static bool coll(TypeKind k) { return (uint32_t(k) & 0x0200) != 0; }
static bool enumerated(TypeKind k) { return (uint32_t(k) & 0x0400) != 0; }
static bool prim(TypeKind k) { return (uint32_t(k) & 0x4000) != 0; }
// an operation on a data of an arbitrary kind that does not have it
template<class K, class F> void refused(K has, F f)
{
    Dat a; ASSUME(!has(a.type.kind())); P i = a.d.instance_; const DynamicType* t = a.d.type_.get();
    ASSERT(rejects([&]{ f(a.d); }), "an operation that the kind of the data does not have is refused"); ASSERT(a.d.instance_ == i && a.d.type_.get() == t && a.val() == a.first, "a refused operation changes nothing");
}
#define ONLY(NAME, HAS, ...) HARNESS(kind_##NAME) { refused([](TypeKind k) { return HAS; }, [](DynamicData& d) { __VA_ARGS__; }); }
ONLY(index, agg(k) || coll(k) || k == TypeKind::PAIR_TYPE, d[nd<uint32_t>()])
ONLY(index_const, agg(k) || coll(k) || k == TypeKind::PAIR_TYPE, d.cref()[nd<uint32_t>()])
ONLY(name, agg(k), d["a"])
ONLY(name_const, agg(k), d.cref()["a"])
ONLY(get_member, agg(k), d.get_member("a"))
ONLY(size, agg(k) || coll(k) || k == TypeKind::PAIR_TYPE, d.size())
ONLY(bounds, coll(k), d.bounds())
ONLY(d, k == TypeKind::UNION_TYPE, d.d())
ONLY(d_const, k == TypeKind::UNION_TYPE, d.cref().d())
ONLY(d_set, k == TypeKind::UNION_TYPE, d.d(nd<uint64_t>()))
ONLY(d_data, k == TypeKind::UNION_TYPE, DynamicData x(primitive_type<int32_t>()); d.d(x))
ONLY(current_case, k == TypeKind::UNION_TYPE, d.current_case())
ONLY(at, k == TypeKind::MAP_TYPE, DynamicData x(primitive_type<int32_t>()); d.at(x))
ONLY(at_const, k == TypeKind::MAP_TYPE, DynamicData x(primitive_type<int32_t>()); d.cref().at(x))
ONLY(key, k == TypeKind::MAP_TYPE, DynamicData x(primitive_type<int32_t>()); d[x])
ONLY(insert, k == TypeKind::MAP_TYPE, DynamicData x(primitive_type<int32_t>()); d.insert(x))
ONLY(has_key, k == TypeKind::MAP_TYPE, DynamicData x(primitive_type<int32_t>()); d.has_key(x))
ONLY(push_value, k == TypeKind::SEQUENCE_TYPE, d.push(nd<uint16_t>()))
ONLY(push_string, k == TypeKind::SEQUENCE_TYPE, d.push(std::string("z")))
ONLY(push_data, k == TypeKind::SEQUENCE_TYPE, DynamicData x(primitive_type<int32_t>()); d.push(x))
ONLY(push_own, k == TypeKind::SEQUENCE_TYPE, d.push(d))
ONLY(resize, k == TypeKind::SEQUENCE_TYPE, d.resize(nd<uint64_t>()))
ONLY(begin, coll(k), d.begin())
ONLY(end, coll(k), d.end())
ONLY(begin_const, coll(k), d.cref().begin())
ONLY(end_const, coll(k), d.cref().end())
ONLY(items, agg(k), d.items())
ONLY(citems, agg(k), d.citems())
ONLY(items_const, agg(k), d.cref().items())
#define VALUE(C, K) ONLY(cast_##K, prim(k) || enumerated(k), d.cast<C>()) \
    ONLY(get_##K, k == TypeKind::K || enumerated(k), d.value<C>()) \
    ONLY(get_const_##K, k == TypeKind::K || enumerated(k), d.cref().value<C>()) \
    ONLY(set_##K, k == TypeKind::K || enumerated(k), C v = nd<C>(); d.value(v)) \
    ONLY(assign_##K, k == TypeKind::K || enumerated(k), C v = nd<C>(); d = v) \
    ONLY(implicit_##K, k == TypeKind::K || enumerated(k), C v = d; (void)v)
VALUE(bool, BOOLEAN_TYPE) VALUE(char, CHAR_8_TYPE) VALUE(char16_t, CHAR_16_TYPE) VALUE(wchar_t, WIDE_CHAR_TYPE) VALUE(int8_t, INT_8_TYPE) VALUE(uint8_t, UINT_8_TYPE) VALUE(int16_t, INT_16_TYPE) VALUE(uint16_t, UINT_16_TYPE) VALUE(int32_t, INT_32_TYPE) VALUE(uint32_t, UINT_32_TYPE)
VALUE(int64_t, INT_64_TYPE) VALUE(uint64_t, UINT_64_TYPE) VALUE(float, FLOAT_32_TYPE) VALUE(double, FLOAT_64_TYPE) VALUE(long double, FLOAT_128_TYPE)
#define STRING(C, K) ONLY(get_##K, k == TypeKind::K || enumerated(k), d.value<C>()) ONLY(set_##K, k == TypeKind::K || enumerated(k), d.value(C(1, 'z'))) ONLY(assign_##K, k == TypeKind::K || enumerated(k), d = C(1, 'z'))
STRING(std::string, STRING_TYPE) STRING(std::wstring, WSTRING_TYPE) STRING(std::u16string, STRING16_TYPE)
