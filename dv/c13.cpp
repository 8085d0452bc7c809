// C13: operators of DynamicData agree with the C++ operators on the values, for every value of every kind.
#include "xtd.hpp"
using ldouble_t = long double;
template<class C> struct Two { C a, b; DynamicData x, y; Two() : a(nd<C>()), b(nd<C>()), x(primitive_type<C>()), y(primitive_type<C>()) { x = a; y = b; }
    void same_operands() { ASSERT(same(x.template value<C>(), a) && same(y.template value<C>(), b), "the operands are unchanged"); } };
template<class C> constexpr bool IS_UN = std::is_unsigned<decltype(C() + C())>::value;
// is the C++ expression defined?
template<class C> bool ok_add(C a, C b) { if constexpr(std::is_integral<C>::value) { decltype(C() + C()) r; return IS_UN<C> || !__builtin_add_overflow(a, b, &r); } else return true; }
template<class C> bool ok_sub(C a, C b) { if constexpr(std::is_integral<C>::value) { decltype(C() + C()) r; return IS_UN<C> || !__builtin_sub_overflow(a, b, &r); } else return true; }
template<class C> bool ok_mul(C a, C b) { if constexpr(std::is_integral<C>::value) { decltype(C() + C()) r; return IS_UN<C> || !__builtin_mul_overflow(a, b, &r); } else return true; }
template<class C> bool ok_div(C a, C b) { if constexpr(std::is_integral<C>::value) { using P = decltype(C() + C()); return b != 0 && (IS_UN<C> || !(P(a) == std::numeric_limits<P>::min() && P(b) == -1)); } else return true; }
template<class C> bool ok_shl(C a, C b) { using P = decltype(C() + C()); return b >= 0 && uint64_t(b) < sizeof(P) * 8 && (IS_UN<C> || (a >= 0 && P(a) <= (std::numeric_limits<P>::max() >> b))); }
template<class C> bool ok_shr(C a, C b) { using P = decltype(C() + C()); return b >= 0 && uint64_t(b) < sizeof(P) * 8; }
template<class C> bool ok_any(C, C) { return true; }
#define BINARY(NAME, OP, OK, C, T) \
    HARNESS(NAME##_##T) { Two<C> d; ASSUME(OK<C>(d.a, d.b)); C want = C(d.a OP d.b); \
        DynamicData z = d.x OP d.y.ref(); ASSERT(z.type().kind() == PrimitiveTypeKindTrait<C>::kind, "the result has the kind of the operands"); \
        ASSERT(same(z.value<C>(), want), "x " #OP " y gives the value of the C++ expression"); d.same_operands(); } \
    HARNESS(NAME##_assign_##T) { Two<C> d; ASSUME(OK<C>(d.a, d.b)); C want = C(d.a OP d.b); \
        DynamicData& r = (d.x OP##= d.y.ref()); ASSERT(&r == &d.x, "x " #OP "= y returns x"); ASSERT(same(d.x.value<C>(), want), "x " #OP "= y leaves the value of the C++ expression in x"); \
        ASSERT(same(d.y.value<C>(), d.b), "y is unchanged"); } \
    HARNESS(NAME##_assign_value_##T) { C a = nd<C>(), b = nd<C>(); DynamicData x(primitive_type<C>()); x = a; ASSUME(OK<C>(a, b)); C want = C(a OP b); \
        x OP##= b; ASSERT(same(x.value<C>(), want), "x " #OP "= value leaves the value of the C++ expression in x"); }
#define COMPARE(C, T) \
    HARNESS(order_##T) { Two<C> d; ASSERT((d.x < d.y.ref()) == (d.a < d.b), "x < y"); ASSERT((d.x > d.y.ref()) == (d.a > d.b), "x > y"); ASSERT((d.x <= d.y.ref()) == (d.a <= d.b), "x <= y"); ASSERT((d.x >= d.y.ref()) == (d.a >= d.b), "x >= y"); d.same_operands(); } \
    HARNESS(logic_##T) { Two<C> d; ASSERT((d.x && d.y.ref()) == (d.a && d.b), "x && y"); ASSERT((d.x || d.y.ref()) == (d.a || d.b), "x || y"); d.same_operands(); } \
    HARNESS(equal_##T) { Two<C> d; ASSERT((d.x == d.y.ref()) == (d.a == d.b), "x == y"); ASSERT((d.x != d.y.ref()) == (d.a != d.b), "x != y"); d.same_operands(); }
#define NOT(C, T) HARNESS(not_##T) { C a = nd<C>(); DynamicData x(primitive_type<C>()); x = a; ASSERT((!x) == !a, "!x"); ASSERT(same(x.value<C>(), a), "x is unchanged"); }
#define REJECT(NAME, EXPR, C, T) HARNESS(NAME##_rejected_##T) { Two<C> d; ASSERT(rejects([&]{ EXPR; }), #EXPR " is rejected"); d.same_operands(); }
#define UNARY(NAME, OP, OK, C, T) HARNESS(NAME##_##T) { C a = nd<C>(); DynamicData x(primitive_type<C>()); x = a; ASSUME(OK<C>(C(0), a)); DynamicData z = OP x; ASSERT(z.type().kind() == PrimitiveTypeKindTrait<C>::kind && same(z.value<C>(), C(OP a)), #OP "x gives the value of the C++ expression"); ASSERT(same(x.value<C>(), a), "x is unchanged"); }
#define STEP(NAME, OP, OK, O2, C, T) HARNESS(NAME##_##T) { C a = nd<C>(); DynamicData x(primitive_type<C>()), y(x); x = a; y = a; ASSUME(OK<C>(a, C(1))); DynamicData& r = OP x; ASSERT(&r == &x && same(x.value<C>(), C(a O2 1)), #OP "x steps the value"); y OP; ASSERT(same(y.value<C>(), C(a O2 1)), "x" #OP " steps the value"); }
#define INTEGER(C, T) COMPARE(C, T) NOT(C, T) BINARY(add, +, ok_add, C, T) BINARY(sub, -, ok_sub, C, T) BINARY(mul, *, ok_mul, C, T) BINARY(div, /, ok_div, C, T) BINARY(mod, %, ok_div, C, T) \
    BINARY(and, &, ok_any, C, T) BINARY(or, |, ok_any, C, T) BINARY(xor, ^, ok_any, C, T) BINARY(shl, <<, ok_shl, C, T) BINARY(shr, >>, ok_shr, C, T) STEP(inc, ++, ok_add, +, C, T) STEP(dec, --, ok_sub, -, C, T)
#define SIGNED(C, T) INTEGER(C, T) UNARY(neg, -, ok_sub, C, T) UNARY(com, ~, ok_any, C, T)
#define UNSIGNED(C, T) INTEGER(C, T) REJECT(neg, -d.x, C, T) REJECT(com, ~d.x, C, T)
#define FLOATING(C, T) COMPARE(C, T) BINARY(add, +, ok_any, C, T) BINARY(sub, -, ok_any, C, T) BINARY(mul, *, ok_any, C, T) BINARY(div, /, ok_any, C, T) UNARY(neg, -, ok_any, C, T) \
    REJECT(mod, d.x % d.y.ref(), C, T) REJECT(and, d.x & d.y.ref(), C, T) REJECT(or, d.x | d.y.ref(), C, T) REJECT(xor, d.x ^ d.y.ref(), C, T) REJECT(shl, d.x << d.y.ref(), C, T) REJECT(shr, d.x >> d.y.ref(), C, T) REJECT(com, ~d.x, C, T) REJECT(inc, ++d.x, C, T) REJECT(dec, --d.x, C, T) REJECT(not, (void)!d.x, C, T)
#define CHARACTER(C, T) COMPARE(C, T) NOT(C, T) REJECT(add, d.x + d.y.ref(), C, T) REJECT(sub, d.x - d.y.ref(), C, T) REJECT(mul, d.x * d.y.ref(), C, T) REJECT(div, d.x / d.y.ref(), C, T) REJECT(mod, d.x % d.y.ref(), C, T) \
    REJECT(and, d.x & d.y.ref(), C, T) REJECT(or, d.x | d.y.ref(), C, T) REJECT(xor, d.x ^ d.y.ref(), C, T) REJECT(shl, d.x << d.y.ref(), C, T) REJECT(shr, d.x >> d.y.ref(), C, T) REJECT(neg, -d.x, C, T) REJECT(com, ~d.x, C, T) REJECT(inc, ++d.x, C, T) REJECT(dec, --d.x, C, T) \
    REJECT(add_assign, d.x += d.y.ref(), C, T) REJECT(mul_assign, d.x *= d.y.ref(), C, T) REJECT(add_value, d.x += d.b, C, T) REJECT(sub_value, d.x -= d.b, C, T) REJECT(mul_value, d.x *= d.b, C, T)
SIGNED(int8_t, int8) SIGNED(int16_t, int16) SIGNED(int32_t, int32) SIGNED(int64_t, int64)
UNSIGNED(uint8_t, uint8) UNSIGNED(uint16_t, uint16) UNSIGNED(uint32_t, uint32) UNSIGNED(uint64_t, uint64)
FLOATING(float, float) FLOATING(double, double) FLOATING(ldouble_t, ldouble)
CHARACTER(char, char) CHARACTER(char16_t, char16) CHARACTER(wchar_t, wchar) CHARACTER(bool, bool)
