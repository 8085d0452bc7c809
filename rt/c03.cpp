#include "large.hpp"
// ------------------------------------------------------------------ C03
static void c03_one(const T& t, Rng& r)
{
    V v = vrandom(*t, r);
    DynamicData a = rmake(*t, v);
    rexpect(a, *t, v, "written data");
    auto indep = [&](DynamicData& x, const V& xv0, const std::string& how) {
        V xv = xv0, av = v;
        rexpect(x, *t, xv, how); REQUIRE(x == a && a == x && !(x != a), how + ": the copy is not equal to its source");
        for(int i = 0; i < 4; ++i)
        {
            if(r.coin()) mutate(x.ref(), *t, xv, r); else mutate(a.ref(), *t, av, r);
            rexpect(x, *t, xv, how + ", after a change (of either)"); rexpect(a, *t, av, how + ": source, after a change (of either)");
        }
        v = av;
    };
    { DynamicData b(a); indep(b, v, "copy constructor"); }
    { DynamicData b(a.ref()); indep(b, v, "constructor from a writable reference"); }
    { DynamicData b(a.cref()); indep(b, v, "constructor from a reference"); }
    { DynamicData b(a, t->r()); indep(b, v, "constructor from a data and its type"); }
    { V w = vrandom(*t, r); DynamicData b = rmake(*t, w); b = a; indep(b, v, "assignment"); }
    { V w = vrandom(*t, r); DynamicData b = rmake(*t, w); b = a.cref(); indep(b, v, "assignment from a reference"); }
    { V w = vrandom(*t, r); DynamicData b = rmake(*t, w); b.ref() = a.ref(); indep(b, v, "assignment through references"); }
    a = a; rexpect(a, *t, v, "self assignment"); a.ref() = a.ref(); rexpect(a, *t, v, "self assignment through references");
    { V keep = v; DynamicData c(a); DynamicData b(std::move(c)); indep(b, keep, "move constructor"); V w = vrandom(*t, r); c = a; rexpect(c, *t, v, "assignment to a moved-from data"); (void)w; }
    { std::unique_ptr<DynamicData> p(new DynamicData(a)); DynamicData b(*p); V keep = v; p.reset(); rexpect(b, *t, keep, "copy of a destroyed data"); }
    const TD& bt = base(t);
    if(bt.k == STRUCT && !bt.mem.empty())
    {
        size_t i = r.below(bt.mem.size());
        DynamicData m(a[bt.mem[i].name]); V mv = v.kids[i];
        rexpect(m, *bt.mem[i].t, mv, "copy of a member");
        mutate(m.ref(), *bt.mem[i].t, mv, r); rexpect(a, *t, v, "after changing the copy of a member");
        DynamicData m2(static_cast<const R&>(a)[bt.mem[i].name]); mutate(a[bt.mem[i].name], *bt.mem[i].t, v.kids[i], r); (void)m2;
        a[bt.mem[i].name] = m; v.kids[i] = mv; rexpect(a, *t, v, "after assigning a member");
    }
    if((bt.k == SEQ || bt.k == ARR) && !v.kids.empty())
    {
        size_t i = r.below(v.kids.size());
        DynamicData m(a[i]); V mv = v.kids[i];
        rexpect(m, *bt.elem, mv, "copy of an element");
        mutate(m.ref(), *bt.elem, mv, r); rexpect(a, *t, v, "after changing the copy of an element");
        a[i] = m; v.kids[i] = mv; rexpect(a, *t, v, "after assigning an element");
    }
}
static void c03()
{
    for(auto& e : elem_family()) add_case("copies of " + e.first, [=]{ for(size_t i = 0; i < N(4, 20); ++i) { Rng r = rng(3, i); c03_one(e.second, r); c03_one(seq(e.second), r); c03_one(mapt(prim(U64), e.second), r); c03_one(arr(e.second, 3), r); c03_one(structt({{"p", prim(I8)}, {"m", e.second}, {"z", e.second}}), r); c03_one(uniont(prim(I16), {{"m", e.second, {5}}, {"n", prim(I8), {-6}}}), r); } });
    for(size_t c = 0; c < N(160, 1500); ++c) add_case("random type " + std::to_string(c), [=]{ Rng r = rng(33, c); Gen g(r); T t = g.type(3); for(int i = 0; i < 3; ++i) c03_one(t, r); });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c03(); large_cases("samtun", false); }
