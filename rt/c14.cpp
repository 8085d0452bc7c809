#include "large.hpp"
// ------------------------------------------------------------------ C14
struct Visit { size_t deep; size_t index; std::string member; bool mchk; TypeKind kind; V v; const TD* t; size_t parent; };
// the index of a selected member is its label, in the width of the discriminator
static size_t ulabel(const TD& d, int64_t l) { int b = ksize(base(d).k) * 8; return b == 64 ? size_t(l) : size_t(l) & ((size_t(1) << b) - 1); }
static TypeKind rkind(const TD& t) { return base(t).real->kind(); }
static void walk(const TD& t0, const V& v, size_t deep, size_t index, const std::string& m, bool mchk, size_t parent, std::vector<Visit>& out)
{
    const TD& t = base(t0);
    size_t me = out.size();
    out.push_back({deep, index, m, mchk, rkind(t), v, &t, parent});
    if(t.k == ARR || t.k == SEQ) for(size_t i = 0; i < v.kids.size(); ++i) walk(*t.elem, v.kids[i], deep + 1, i, "", false, me, out);
    if(t.k == STRUCT) for(size_t i = 0; i < t.mem.size(); ++i) walk(*t.mem[i].t, v.kids[i], deep + 1, i, t.mem[i].name, true, me, out);
    if(t.k == UNION && v.sel >= 0) walk(*t.mem[v.sel].t, v.kids[0], deep + 1, ulabel(*t.disc, v.d), t.mem[v.sel].name, true, me, out);
    if(t.k == MAP) for(size_t i = 0; i < v.kids.size(); i += 2)
    {
        size_t p = out.size(); V pv; pv.kids = {v.kids[i], v.kids[i + 1]};
        out.push_back({deep + 1, i / 2, "", false, TypeKind::PAIR_TYPE, pv, nullptr, me});
        walk(*t.key, v.kids[i], deep + 2, 0, "", false, p, out); walk(*t.elem, v.kids[i + 1], deep + 2, 1, "", false, p, out);
    }
}
static bool has_nolabel(const TD& t0, const V& v)   // a default member without labels: its discriminator value is not part of the model
{
    const TD& t = base(t0);
    if(t.k == UNION) return v.sel >= 0 && (t.mem[v.sel].labels.empty() || has_nolabel(*t.mem[v.sel].t, v.kids[0]));
    if(t.k == STRUCT) { for(size_t i = 0; i < t.mem.size(); ++i) if(has_nolabel(*t.mem[i].t, v.kids[i])) return true; return false; }
    if(t.k == MAP) { for(size_t i = 0; i < v.kids.size(); ++i) if(has_nolabel(i % 2 ? *t.elem : *t.key, v.kids[i])) return true; return false; }
    if(t.k == ARR || t.k == SEQ) { for(auto& k : v.kids) if(has_nolabel(*t.elem, k)) return true; return false; }
    return false;
}
static void c14_iter(W ref, const TD& t0, V& v, Rng& r, int depth)
{
    const TD& t = base(t0); const R& c = ref;
    if(t.k == ARR || t.k == SEQ)
    {
        size_t i = 0; for(auto e : ref) { REQUIRE(i < v.kids.size(), "iteration yields more elements than the data has"); rexpect(e, *t.elem, v.kids[i], "iterated element " + std::to_string(i)); REQUIRE(e.instance_id() == ref[i].instance_id(), "the iterated element is not the stored one"); if(r.coin()) mutate(e, *t.elem, v.kids[i], r); ++i; }
        REQUIRE(i == v.kids.size(), "iteration yields " + std::to_string(i) + " elements of " + std::to_string(v.kids.size()));
        i = 0; for(auto it = c.begin(); it != c.end(); it++) { rexpect(*it, *t.elem, v.kids.at(i), "element iterated with ++"); ++i; }
        REQUIRE(i == v.kids.size(), "iteration yields " + std::to_string(i) + " elements of " + std::to_string(v.kids.size()));
        if(depth && !v.kids.empty()) c14_iter(ref[0], *t.elem, v.kids[0], r, depth - 1);
    }
    if(t.k == MAP)
    {
        std::vector<bool> seen(v.kids.size() / 2); size_t n = 0;
        for(const R& p : c) { bool ok = false; for(size_t j = 0; j < v.kids.size(); j += 2) if(!seen[j / 2] && veq(*t.key, rread(p[0], *t.key), v.kids[j])) { rexpect(p[1], *t.elem, v.kids[j + 1], "iterated pair"); seen[j / 2] = true; ok = true; break; } REQUIRE(ok, "an iterated pair is not an entry (or is repeated)"); ++n; }
        REQUIRE(n == seen.size(), "iteration yields " + std::to_string(n) + " pairs of " + std::to_string(seen.size()));
    }
    if(t.k == STRUCT)
    {
        size_t i = 0; for(auto m : c.items()) { REQUIRE(i < t.mem.size() && m.member().name() == t.mem[i].name, "items() yields a wrong member at " + std::to_string(i)); rexpect(m.data(), *t.mem[i].t, v.kids[i], "member " + t.mem[i].name); ++i; }
        REQUIRE(i == t.mem.size(), "items() yields " + std::to_string(i) + " members of " + std::to_string(t.mem.size()));
        i = 0; for(auto m : ref.items()) { REQUIRE(i < t.mem.size() && m.member().name() == t.mem[i].name, "items() yields a wrong member at " + std::to_string(i)); if(r.coin()) mutate(m.data(), *t.mem[i].t, v.kids[i], r); REQUIRE(m.data().instance_id() == ref[i].instance_id(), "the iterated member is not the stored one"); rexpect(ref[t.mem[i].name], *t.mem[i].t, v.kids[i], "member changed through its iterator"); ++i; }
        REQUIRE(i == t.mem.size(), "items() yields " + std::to_string(i) + " members of " + std::to_string(t.mem.size()));
        if(depth) for(i = 0; i < t.mem.size(); ++i) c14_iter(ref[i], *t.mem[i].t, v.kids[i], r, depth - 1);
    }
}
static void c14_one(const T& t, Rng& r)
{
    V v = vrandom(*t, r); DynamicData d = rmake(*t, v);
    c14_iter(d.ref(), *t, v, r, 3);
    rexpect(d, *t, v, "after iterating");
    V now = rread(d, *t);     // maps: in the order of iteration, which traversal has to follow
    if(has_nolabel(*t, now)) return;
    std::vector<Visit> want; walk(*t, now, 0, 0, "", false, SIZE_MAX, want);
    for(int wr = 0; wr < 2; ++wr) for(size_t stop : {SIZE_MAX, size_t(r.below(want.size()))})
    {
        size_t i = 0; bool val = r.coin();
        std::vector<size_t> ids;
        auto visit = [&](const R::ReadableNode& n) {
            REQUIRE(i < want.size(), "for_each() visits more than " + std::to_string(want.size()) + " nodes of " + show(*t, v));
            const Visit& w = want[i]; std::string at = "for_each() node " + std::to_string(i) + " of " + t->str();
            REQUIRE(n.type().kind() == w.kind, at + ": wrong type " + n.type().name());
            REQUIRE(n.deep() == w.deep, at + ": depth is " + std::to_string(n.deep()) + " instead of " + std::to_string(w.deep));
            REQUIRE(n.has_parent() == (w.parent != SIZE_MAX), at + ": has_parent()");
            if(w.parent != SIZE_MAX) { REQUIRE(n.from_index() == w.index, at + ": from_index() is " + std::to_string(n.from_index()) + " instead of " + std::to_string(w.index)); REQUIRE(n.parent().data().instance_id() == ids[w.parent], at + ": parent() is another node"); }
            if(w.mchk) REQUIRE(n.from_member() && n.from_member()->name() == w.member, at + ": from_member() is not " + w.member);
            if(w.t) rexpect(n.data(), *w.t, w.v, at);
            ids.push_back(n.data().instance_id());
            if(i == stop) throw val;
            ++i;
        };
        bool res = wr ? d.ref().for_each([&](const W::WritableNode& n) { visit(n); }) : d.for_each([&](const R::ReadableNode& n) { visit(n); });
        if(stop == SIZE_MAX) REQUIRE(i == want.size() && res, "for_each() visits " + std::to_string(i) + " nodes of " + std::to_string(want.size()) + " of " + t->str());
        else REQUIRE(i == stop && res == val, "for_each() stopped by its visitor returns " + std::to_string(res));
    }
    rexpect(d, *t, v, "after for_each()");
}
static void c14()
{
    for(auto& e : elem_family()) add_case("traversal of " + e.first, [=]{ for(size_t i = 0; i < N(4, 20); ++i) { Rng r = rng(14, i); c14_one(e.second, r); c14_one(seq(e.second), r); c14_one(mapt(prim(U64), e.second), r); c14_one(arr(e.second, 3), r); c14_one(structt({{"p", prim(I8)}, {"m", e.second}, {"z", e.second}}, 2), r); c14_one(uniont(prim(I16), {{"m", e.second, {5}}, {"n", prim(I8), {6}}}), r); } });
    for(size_t c = 0; c < N(250, 2500); ++c) add_case("random type " + std::to_string(c), [=]{ Rng r = rng(142, c); Gen g(r); for(int i = 0; i < 4; ++i) { T t = g.type(3); c14_one(t, r); } });
    add_case("large sequence", [=]{ Rng r = rng(143, 0); T t = seq(prim(U16)); V v; for(int i = 0; i < 3000; ++i) { V e; e.n = i; v.kids.push_back(e); } DynamicData d = rmake(*t, v); size_t n = 0; for(auto e : d) { REQUIRE(e.value<uint16_t>() == n, "element"); ++n; } REQUIRE(n == 3000, "count"); n = 0; d.for_each([&](const R::ReadableNode& x) { if(x.deep() == 1) { REQUIRE(x.from_index() == n && x.data().value<uint16_t>() == n, "node"); ++n; } }); REQUIRE(n == 3000, "count of nodes"); });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c14(); large_cases("samtun", false); }
