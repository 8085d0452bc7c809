#include "common.hpp"
// ------------------------------------------------------------------ C13
using Wide = __int128;
template<class C> static bool fits(Wide w) { using P = decltype(C() + C()); return w >= Wide(std::numeric_limits<P>::min()) && w <= Wide(std::numeric_limits<P>::max()); }
template<class C> static bool un_(C) { return std::is_unsigned<decltype(C() + C())>::value; }
template<class C> static void c13_pair(C a, C b)
{
    DynamicData x(primitive_type<C>()), y(primitive_type<C>()); x = a; y = b;
    std::string at = std::string(" of ") + primitive_type<C>().name() + " " + num(a) + ", " + num(b);
    auto keep = [&](const std::string& op) { REQUIRE(same_bits(x.value<C>(), a) && same_bits(y.value<C>(), b), "operator " + op + at + " modifies an operand"); };
    auto bin = [&](const std::string& op, std::function<DynamicData()> f, std::function<void(DynamicData&)> g, std::function<void(DynamicData&)> h, C want) {
        DynamicData z = f(); REQUIRE(z.type().kind() == x.type().kind(), "operator " + op + at + " gives another type");
        REQUIRE(same_bits(z.value<C>(), want), "operator " + op + at + " gives " + num(z.value<C>()) + " instead of " + num(want)); keep(op);
        DynamicData w(x); g(w); REQUIRE(same_bits(w.value<C>(), want), "operator " + op + "=" + at + " gives " + num(w.value<C>()) + " instead of " + num(want)); keep(op + "=");
        if(h) { DynamicData w2(x); h(w2); REQUIRE(same_bits(w2.value<C>(), want), "operator " + op + "= (value)" + at + " gives " + num(w2.value<C>()) + " instead of " + num(want)); }
    };
    #define XB(OP) [&]{ return x OP y.ref(); }, [&](DynamicData& w) { w OP##= y.ref(); }, [&](DynamicData& w) { w OP##= b; }
    constexpr bool chr = std::is_same<C, char>::value || std::is_same<C, wchar_t>::value || std::is_same<C, char16_t>::value || std::is_same<C, bool>::value;
    REQUIRE((x < y.ref()) == (a < b) && (x > y.ref()) == (a > b) && (x <= y.ref()) == (a <= b) && (x >= y.ref()) == (a >= b), "order" + at); keep("<");
    REQUIRE((x && y.ref()) == (a && b) && (x || y.ref()) == (a || b), "logical operator" + at); keep("&&");
    REQUIRE((x == y) == (a == b) && (x != y) == (a != b), "equality" + at);
    if constexpr(chr)
    {
        #define XR(OP) REQUIRE(rejects([&]{ x OP y.ref(); }), std::string("operator " #OP " accepted") + at); keep(#OP);
        XR(+) XR(-) XR(*) XR(/) XR(%) XR(<<) XR(>>) XR(&) XR(|) XR(^)
        #undef XR
        REQUIRE(rejects([&]{ -x; }) && rejects([&]{ ~x; }) && rejects([&]{ ++x; }) && rejects([&]{ --x; }), "unary operator accepted" + at); keep("++");
        REQUIRE((!x) == !a, "operator !" + at);
        if constexpr(!std::is_same<C, bool>::value) REQUIRE(rejects([&]{ x += b; }) && rejects([&]{ x -= b; }) && rejects([&]{ x *= b; }) && rejects([&]{ x &= b; }), "compound operator accepted" + at);
        keep("+=");
    }
    else if constexpr(std::is_floating_point<C>::value)
    {
        bin("+", XB(+), C(a + b)); bin("-", XB(-), C(a - b)); bin("*", XB(*), C(a * b)); bin("/", XB(/), C(a / b));
        #define XR(OP) REQUIRE(rejects([&]{ x OP y.ref(); }), std::string("operator " #OP " accepted") + at); keep(#OP);
        XR(%) XR(<<) XR(>>) XR(&) XR(|) XR(^)
        #undef XR
        { DynamicData z = -x; REQUIRE(same_bits(z.value<C>(), C(-a)), "negation" + at); keep("-"); }
        REQUIRE(rejects([&]{ ~x; }) && rejects([&]{ ++x; }) && rejects([&]{ --x; }) && rejects([&]{ (void)!x; }), "unary operator accepted" + at); keep("++");
    }
    else
    {
        const bool un = un_(a); const int pw = int(sizeof(C() + C())) * 8;
        Wide wa = a, wb = b;
        if(un || fits<C>(wa + wb)) bin("+", XB(+), C(a + b));
        if(un || fits<C>(wa - wb)) bin("-", XB(-), C(a - b));
        if(un || fits<C>(wa * wb)) bin("*", XB(*), C(a * b));
        if(b != 0 && (un || fits<C>(wa / (wb ? wb : 1)))) { bin("/", XB(/), C(a / b)); bin("%", XB(%), C(a % b)); }
        bin("&", XB(&), C(a & b)); bin("|", XB(|), C(a | b)); bin("^", XB(^), C(a ^ b));
        if(wb >= 0 && wb < pw) { bin(">>", XB(>>), C(a >> b)); if(un || (wa >= 0 && fits<C>(wa * (Wide(1) << int(wb))))) bin("<<", XB(<<), C(a << b)); }
        if constexpr(std::is_signed<C>::value) { if(fits<C>(-wa)) { DynamicData z = -x; REQUIRE(same_bits(z.value<C>(), C(-a)), "negation" + at); } DynamicData z = ~x; REQUIRE(same_bits(z.value<C>(), C(~a)), "complement" + at); }
        else REQUIRE(rejects([&]{ ~x; }), "complement of unsigned accepted" + at);
        keep("-");
        REQUIRE((!x) == !a, "operator !" + at);
        if(un || sizeof(C) < 4 || fits<C>(wa + 1)) { DynamicData z(x); DynamicData& q = ++z; REQUIRE(&q == &z && same_bits(z.value<C>(), C(a + 1)), "increment" + at + " gives " + num(z.value<C>())); DynamicData p(x); p++; REQUIRE(same_bits(p.value<C>(), C(a + 1)), "post-increment" + at); }
        if(un || sizeof(C) < 4 || fits<C>(wa - 1)) { DynamicData z(x); DynamicData& q = --z; REQUIRE(&q == &z && same_bits(z.value<C>(), C(a - 1)), "decrement" + at + " gives " + num(z.value<C>())); DynamicData p(x); p--; REQUIRE(same_bits(p.value<C>(), C(a - 1)), "post-decrement" + at); }
    }
    #undef XB
}
static void c13()
{
    for(int k = BOOL; k <= WC; ++k) for(size_t c = 0; c < N(3, 20); ++c)
        add_case(std::string("operators on ") + KN[k] + " " + std::to_string(c), [=]{ Rng r = rng(13, k * 100 + c); by_prim(K(k), [&](auto z) { using C = decltype(z); auto v = op_values<C>(r); for(C a : v) for(C b : v) c13_pair<C>(a, b); return 0; }); });
    add_case("all pairs of 8 bits", [=]{ int step = TH ? 1 : 3; for(int a = -128; a < 128; a += 1) for(int b = -128; b < 128; b += step) { c13_pair<int8_t>(int8_t(a), int8_t(b)); if(a % step == 0) c13_pair<uint8_t>(uint8_t(a), uint8_t(b)); } });
    add_case("kinds without operators", [=]{
        StructType s("S"); s.add_member("a", primitive_type<int32_t>()); EnumerationType<uint32_t> e("E"); e.add_enumerator("A", 1);
        std::vector<DynamicData> ds; ds.emplace_back(s); ds.emplace_back(StringType()); ds.emplace_back(SequenceType(primitive_type<int32_t>())); ds.emplace_back(e); ds.emplace_back(MapType(primitive_type<int32_t>(), primitive_type<int32_t>())); ds.emplace_back(ArrayType(primitive_type<int32_t>(), 2));
        for(auto& d : ds) { auto h = d; REQUIRE(rejects([&]{ d + d.ref(); }) && rejects([&]{ d - d.ref(); }) && rejects([&]{ d % d.ref(); }) && rejects([&]{ (void)(d < d.ref()); }) && rejects([&]{ (void)(d && d.ref()); }) && rejects([&]{ -d; }) && rejects([&]{ ~d; }) && rejects([&]{ ++d; }) && rejects([&]{ d += d.ref(); }) && rejects([&]{ d *= d.ref(); }), "operator accepted on " + d.type().name()); REQUIRE(h == d, "operand changed"); }
        for(size_t i = 0; i < ds.size(); ++i) if(i != 1) REQUIRE(rejects([&]{ (void)!ds[i]; }), "operator ! accepted on " + ds[i].type().name());
        DynamicData str{StringType()}; REQUIRE(!str, "! of an empty string"); str = "x"; REQUIRE(!(!str), "! of a string");
        DynamicData i(primitive_type<int32_t>()), u(primitive_type<uint32_t>()); REQUIRE(rejects([&]{ i + u.ref(); }) && rejects([&]{ (void)(i < u.ref()); }) && rejects([&]{ i += u.ref(); }), "operands of different kinds accepted");
    });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c13(); }
