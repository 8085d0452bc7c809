#include "large.hpp"
// ------------------------------------------------------------------ C17
// The originals live in raw storage that is overwritten after their destruction.
template<class X> struct Orig
{
    alignas(X) unsigned char mem[sizeof(X)]; bool alive = false;
    template<class... A> X& make(A&&... a) { new (mem) X(std::forward<A>(a)...); alive = true; return get(); }
    X& get() { return *reinterpret_cast<X*>(mem); }
    void kill() { if(alive) { get().~X(); memset(mem, 0x5a, sizeof mem); alive = false; } }
    ~Orig() { kill(); }
};
static void c17_use(const DynamicType& t, const TD& model, Rng& r)
{
    DynamicData d(t); V v = vdefault(model); rexpect(d, model, v, "data of a composed type whose parts were changed or destroyed");
    for(int i = 0; i < 8; ++i) { mutate(d.ref(), model, v, r); rexpect(d, model, v, "data of a composed type whose parts were changed or destroyed"); }
    DynamicData c(d); rexpect(c, model, v, "copy"); REQUIRE(c == d, "copy");
}
static void c17_one(Rng& r, int how)
{
    T in = structt({{"a", prim(I8)}, {"s", str(STR)}}, 0, "In");
    auto spoil = [&](Orig<StructType>& o) { if(r.coin()) o.get().add_member("later", SequenceType(StringType())); if(r.coin()) o.get().name("other"); if(r.coin()) o.kill(); };
    Orig<StructType> o; StructType& s = o.make("In"); s.add_member("a", primitive_type<int8_t>()); s.add_member("s", StringType());
    switch(how)
    {
        case 0: { StructType t("T"); t.add_member("x", s); t.add_member(Member("y", s)); spoil(o); T m = structt({{"x", in}, {"y", in}}, 0, "T"); REQUIRE(t.is_compatible(m->r()) == TypeConsistency::EQUALS && t.memory_size() == m->r().memory_size(), "member type changed"); c17_use(t, *m, r); break; }
        case 1: { SequenceType t(s, 4); spoil(o); c17_use(t, *seq(in, 4), r); break; }
        case 2: { ArrayType t(s, 3); spoil(o); c17_use(t, *arr(in, 3), r); break; }
        case 3: { MapType t(StringType(), s, 5); spoil(o); c17_use(t, *mapt(str(STR), in, 5), r); break; }
        case 4: { AliasType t(s, "Al"); spoil(o); T m = alias(in); c17_use(t, *m, r); break; }
        case 5: { MapType t(s, primitive_type<uint32_t>()); spoil(o); c17_use(t, *mapt(in, prim(U32)), r); break; }
        case 6: { UnionType t("U", primitive_type<int16_t>()); t.add_case_member<int64_t>({1, 2}, Member("x", s)); t.add_case_member<int64_t>({-3}, Member("i", primitive_type<int64_t>())); spoil(o); c17_use(t, *uniont(prim(I16), {{"x", in, {1, 2}}, {"i", prim(I64), {-3}}}, "U"), r); break; }
        case 7: { DynamicData d(s); V v = vdefault(*in); spoil(o); for(int i = 0; i < 6; ++i) { mutate(d.ref(), *in, v, r); rexpect(d, *in, v, "data whose type object was changed or destroyed"); } REQUIRE(d.size() == 2, "members"); DynamicData e(d); rexpect(e, *in, v, "copy"); break; }
        case 8: { Orig<StructType> p; StructType& ch = p.make("Child", &s); ch.add_member("z", primitive_type<int16_t>()); StructType t("T"); t.add_member("c", ch); spoil(o); spoil(p); T m = structt({{"a", prim(I8)}, {"s", str(STR)}, {"z", prim(I16)}}, 2, "Child"); c17_use(t, *structt({{"c", m}}, 0, "T"), r); break; }
        case 9: { Orig<EnumerationType<uint32_t>> eo; auto& e = eo.make("E"); for(auto& q : en_vals(E32)) e.add_enumerator(q.first, q.second); T et = enumt(E32, en_vals(E32)); StructType t("T"); t.add_member("e", e); t.add_member("q", SequenceType(e)); UnionType u("U", e); u.add_case_member<int64_t>({1}, Member("x", e)); u.add_case_member<int64_t>({70000}, Member("y", StringType())); DynamicData d(e); e.add_enumerator("later", 4000000000u); if(r.coin()) eo.kill(); REQUIRE(rejects([&]{ d = uint32_t(4000000000u); }), "an enumerator added later is accepted by the data"); d = uint32_t(70000); c17_use(t, *structt({{"e", et}, {"q", seq(et)}}, 0, "T"), r); c17_use(u, *uniont(et, {{"x", et, {1}}, {"y", str(STR), {70000}}}, "U"), r); DynamicData x(t); REQUIRE(rejects([&]{ x["e"] = uint32_t(4000000000u); }), "an enumerator added later is accepted by a member"); break; }
        case 10: { StructType t("T"); { AliasType al(s, "Al"); SequenceType q(al, 3); ArrayType ar(q, 2); t.add_member("m", ar); } spoil(o); c17_use(t, *structt({{"m", arr(seq(alias(in, "Al"), 3), 2)}}, 0, "T"), r); break; }
        case 11: { std::unique_ptr<StructType> t(new StructType("T")); t->add_member("x", s); StructType copy(*t); t->add_member("more", StringType()); DynamicData d(*t); t.reset(); spoil(o); REQUIRE(copy.members().size() == 1, "copy of a type changed with it"); T m = structt({{"x", in}, {"more", str(STR)}}, 0, "T"); V v = vdefault(*m); for(int i = 0; i < 6; ++i) { mutate(d.ref(), *m, v, r); rexpect(d, *m, v, "data"); } c17_use(copy, *structt({{"x", in}}, 0, "T"), r); break; }
        case 12: { std::unique_ptr<UnionType> u(new UnionType("U", primitive_type<int32_t>())); u->add_case_member<int64_t>({1}, Member("x", s)); StructType t("T"); t.add_member("u", *u); u->add_case_member<int64_t>({2}, Member("later", ArrayType(primitive_type<int64_t>(), 50))); if(r.coin()) u.reset(); spoil(o); c17_use(t, *structt({{"u", uniont(prim(I32), {{"x", in, {1}}}, "U")}}, 0, "T"), r); break; }
        case 14: case 15: case 16: // the original is owned by a type pointer, through which it is changed
        {
            T model = in; std::unique_ptr<DynamicType::Ptr> p; std::function<void()> change;
            if(how == 14) { p.reset(new DynamicType::Ptr(s)); change = [&]{ static_cast<StructType&>(*p->operator->()).add_member("later", ArrayType(StringType(), 3)); }; }
            else if(how == 15) { EnumerationType<uint16_t> e("E"); e.add_enumerator("A", 1); e.add_enumerator("B", 500); model = enumt(E16, {{"A", 1}, {"B", 500}}); p.reset(new DynamicType::Ptr(e)); change = [&]{ static_cast<EnumerationType<uint16_t>&>(*p->operator->()).add_enumerator("later", 1000); }; }
            else { UnionType u("U", primitive_type<int16_t>()); u.add_case_member<int64_t>({1, 2}, Member("x", s)); u.add_case_member<int64_t>({-3}, Member("i", primitive_type<int64_t>())); model = uniont(prim(I16), {{"x", in, {1, 2}}, {"i", prim(I64), {-3}}}, "U"); p.reset(new DynamicType::Ptr(u)); change = [&]{ static_cast<UnionType&>(*p->operator->()).add_case_member<int64_t>({9}, Member("later", ArrayType(primitive_type<int64_t>(), 70))); }; }
            spoil(o); std::string name = (*p)->name();
            auto after = [&]{ if(r.coin()) change(); if(r.coin()) (*p)->name("renamed"); if(r.coin()) p.reset(); };
            auto same = [&](const DynamicType& t) { REQUIRE(t.name() == name && t.memory_size() == model->r().memory_size(), "a type built from " + name + " changed with it"); if(how == 15) REQUIRE(static_cast<const EnumerationType<uint16_t>&>(t).enumerators().size() == 2, "enumerators"); else REQUIRE(!static_cast<const AggregationType&>(t).has_member("later"), "members"); };
            switch(r.below(8))
            {
                case 0: { StructType t("T"); t.add_member("x", **p); t.add_member(Member("y", **p)); after(); same(t.member("x").type()); same(t.member("y").type()); c17_use(t, *structt({{"x", model}, {"y", model}}, 0, "T"), r); break; }
                case 1: { SequenceType t(**p, 4); after(); same(t.content_type()); c17_use(t, *seq(model, 4), r); break; }
                case 2: { ArrayType t(**p, 3); after(); same(t.content_type()); c17_use(t, *arr(model, 3), r); break; }
                case 3: { MapType t(StringType(), **p, 5); after(); c17_use(t, *mapt(str(STR), model, 5), r); break; }
                case 4: { AliasType t(**p, "Al"); after(); same(t.get()); c17_use(t, *alias(model), r); break; }
                case 5: { PairType t(**p, **p); after(); same(t.first()); same(t.second()); break; }
                case 6: { UnionType t("W", primitive_type<int32_t>()); t.add_case_member<int64_t>({1, 2}, Member("x", **p)); after(); same(t.member("x").type()); c17_use(t, *uniont(prim(I32), {{"x", model, {1, 2}}}, "W"), r); break; }
                default: { DynamicType::Ptr q(*p), w, v(primitive_type<int8_t>()); w = q; v = *p; after(); same(*q); same(*w); same(*v); c17_use(*w, *model, r); }
            }
            break;
        }
        default: { std::unique_ptr<DynamicType::Ptr> p(new DynamicType::Ptr(s)); DynamicType::Ptr q(*p); spoil(o); p.reset(); REQUIRE(q->name() == "In" && static_cast<const StructType&>(*q).members().size() == 2, "type pointer"); c17_use(*q, *in, r); }
    }
}
static void c17() { for(int how = 0; how < 17; ++how) for(size_t c = 0; c < N(6, 60); ++c) add_case("composition " + std::to_string(how) + " run " + std::to_string(c), [=]{ Rng r = rng(17, how * 100 + c); for(int i = 0; i < 6; ++i) noleak("types held by value", [&]{ c17_one(r, how); }); }); }
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c17(); }
