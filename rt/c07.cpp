#include "large.hpp"
// ------------------------------------------------------------------ C07
struct UM { bool def_only; };
static void c07_type(const T& t, Rng& r, int ops)
{
    const TD& u = base(t);
    DynamicData d(t->r()); V v = vdefault(*t);
    std::set<int64_t> all; for(auto& m : u.mem) for(auto l : m.labels) all.insert(l);
    auto check = [&](const std::string& what) {
        rexpect(d, *t, v, what);
        if(v.sel < 0) { REQUIRE(rejects([&]{ d.current_case(); }), what + ": a member is selected"); }
        else
        {
            REQUIRE(d.current_case().name() == u.mem[v.sel].name, what + ": current_case()");
            int64_t l = rdisc(d.d(), *u.disc);
            bool ok = u.mem[v.sel].labels.empty(); for(auto x : u.mem[v.sel].labels) ok |= x == l;
            REQUIRE(ok, what + ": the discriminator " + std::to_string(l) + " is not a label of the selected member " + u.mem[v.sel].name);
            if(u.mem[v.sel].labels.empty()) REQUIRE(!all.count(l), what + ": the discriminator of the default member is a label of another one");
        }
        for(size_t i = 0; i < u.mem.size(); ++i)
        {
            bool rej = rejects([&]{ d.get_member(u.mem[i].name); }), rej2 = rejects([&]{ static_cast<const R&>(d)[u.mem[i].name]; });
            REQUIRE(rej == (int(i) != v.sel) && rej2 == rej, what + ": member " + u.mem[i].name + (rej ? " cannot be read" : " can be read") + " (" + t->str() + ")");
        }
    };
    check("fresh union");
    for(int op = 0; op < ops; ++op)
    {
        int what = int(r.below(5));
        if(what < 2) mutate(d.ref(), *t, v, r);
        else if(what == 2)
        {
            size_t i = r.below(u.mem.size()); const Mem& m = u.mem[i];
            bool same = v.sel == int(i);
            W x = d[m.name];
            if(!same) { v.sel = int(i); v.kids.assign(1, vdefault(*m.t)); }
            if(m.labels.empty()) v.d = 0; else { int64_t l = rdisc(d.d(), *u.disc); if(same) REQUIRE(l == v.d, "selecting the active member changes the discriminator"); v.d = l; }
            rexpect(x, *m.t, v.kids[0], "selected member");
        }
        else
        {
            // a direct write of the discriminator
            size_t i = r.below(u.mem.size()); const Mem& m = u.mem[i];
            if(r.coin(4) || m.labels.empty())
            {
                int64_t l = int64_t(r.below(50)) + 20; // not a label (unless it happens to be one)
                if(is_enum(base(u.disc).k)) l = 77;
                if(all.count(l)) continue;
                REQUIRE(rejects([&]{ d.d(l); }), "discriminator value " + std::to_string(l) + " is not a label but it is accepted (" + t->str() + ")");
            }
            else
            {
                int64_t l = m.labels[r.below(m.labels.size())];
                bool byref = r.coin(); bool ok = v.sel < 0 || v.sel == int(i);
                auto put = [&]{ if(byref) { DynamicData x(u.disc->r()); V dv; dv.n = (long double)l; by_scalar(base(u.disc).k, [&](auto z) { using C = decltype(z); x.value<C>(C(l)); return 0; }); d.d(x); } else d.d(l); };
                if(ok) { put(); if(v.sel < 0) { v.sel = int(i); v.kids.assign(1, vdefault(*m.t)); } v.d = l; }
                else REQUIRE(rejects(put), "label " + std::to_string(l) + " of a member that is not active is accepted (" + t->str() + ")");
            }
        }
        check("after operation " + std::to_string(op));
        if(op % 7 == 0) { DynamicData c(d); rexpect(c, *t, v, "copy"); DynamicData e(std::move(c)); rexpect(e, *t, v, "move"); if(r.coin()) d = e; check("after a copy"); }
    }
}
static void c07()
{
    std::vector<K> ds = {I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC, E8, E16, E32};
    for(K dk : ds) for(int al = 0; al < 3; ++al) add_case(std::string("discriminator ") + KN[dk] + " aliased " + std::to_string(al), [=]{
        std::vector<std::pair<std::string, uint32_t>> ev = {{"A", 0}, {"B", 1}, {"C", 5}, {"D", 100}, {"Z", 120}};
        T d = is_enum(dk) ? enumt(dk, ev) : prim(dk); for(int i = 0; i < al; ++i) d = alias(d, "DA" + std::to_string(i));
        std::vector<int64_t> lab;
        if(is_enum(dk)) lab = {0, 1, 5, 100, 120};
        else by_prim(dk, [&](auto z) { using C = decltype(z); using L = std::numeric_limits<C>;
            lab = {0, 1, 2, 65, 100};
            if(L::is_signed) { lab.push_back(-1); lab.push_back(-2); lab.push_back(int64_t(L::min())); lab.push_back(int64_t(L::min()) + 1); lab.push_back(int64_t(L::max()) - 2); }
            else { if(sizeof(C) < 8) lab.push_back(int64_t(L::max())); lab.push_back(int64_t(L::max() / 2) + (sizeof(C) < 8 ? 1 : -7)); lab.push_back(int64_t(L::max() / 2) - 2); }
            return 0; });
        for(size_t it = 0; it < N(6, 40); ++it)
        {
            Rng r = rng(7, dk * 100 + al * 10 + it);
            auto pool = lab; std::shuffle(pool.begin(), pool.end(), r.g);
            std::vector<Mem> ms; size_t n = 1 + r.below(3); size_t dm = r.below(5);
            static const std::vector<T> mt = {prim(I8), str(STR), prim(I64), seq(str(STR)), structt({{"a", prim(I32)}, {"s", str(STR, 9)}}), prim(U16)};
            for(size_t i = 0; i < n && !pool.empty(); ++i)
            {
                Mem m; m.name = "m" + std::to_string(i); m.t = mt[r.below(mt.size())];
                for(size_t k = 0; k < 1 + r.below(3) && !pool.empty(); ++k) { m.labels.push_back(pool.back()); pool.pop_back(); }
                if(i == dm) { m.def = true; if(r.coin()) m.labels.clear(); }
                ms.push_back(m);
            }
            if(ms.empty()) continue;
            T t = uniont(d, ms);
            c07_type(t, r, int(N(40, 120)));
            UnionType u = static_cast<const UnionType&>(t->r());
            std::string df; for(auto& m : ms) { if(m.def) df = m.name; std::vector<int64_t> got = u.get_labels(m.name); std::set<int64_t> w;
                for(auto l : m.labels) w.insert(l); REQUIRE(got.size() == w.size(), "get_labels(" + m.name + ") has " + std::to_string(got.size()) + " labels"); }
            REQUIRE(u.get_default() == df, "get_default()");
            for(auto& m : ms) { REQUIRE(u.is_default(m.name) == m.def, "is_default()");
                for(auto l : m.labels) { REQUIRE(rejects([&]{ u.add_case_member<int64_t>({l}, Member("other", primitive_type<char>())); }), "a used label is accepted again");
                    if(!pool.empty()) REQUIRE(rejects([&]{ u.add_case_member<int64_t>({pool.back(), l}, Member("other2", primitive_type<char>())); }), "a used label is accepted again (second)"); } }
            REQUIRE(u.members().size() == ms.size() + 1, "a refused case member was added");
            if(!df.empty() && !pool.empty()) REQUIRE(rejects([&]{ u.add_case_member<int64_t>({pool.back()}, Member("other", primitive_type<char>()), true); }), "a second default is accepted");
            if(!pool.empty()) { REQUIRE(rejects([&]{ u.add_case_member<int64_t>({pool.back()}, Member(ms[0].name, primitive_type<char>())); }), "a used member name is accepted"); REQUIRE(rejects([&]{ u.add_case_member<int64_t>({pool.back()}, Member("discriminator", primitive_type<char>())); }), "reserved member name accepted");
                for(auto l : ms[0].labels) (void)l;
                u.add_case_member<int64_t>({pool.back()}, Member("late", StringType())); DynamicData x(u); x["late"].value<std::string>("ok"); REQUIRE(x["late"].value<std::string>() == "ok" && rdisc(x.d(), *d) == pool.back(), "member added later"); }
            REQUIRE(rejects([&]{ u.add_case_member<int64_t>({}, Member("nolabel", primitive_type<char>())); }), "a member without labels is accepted");
        }
    });
    add_case("bool discriminator", [=]{
        UnionType u("U", primitive_type<bool>());
        u.add_case_member<bool>({true}, Member("t", StringType())); u.add_case_member<bool>({false}, Member("f", primitive_type<int32_t>()));
        DynamicData d(u); d["t"].value<std::string>("x"); REQUIRE(d.d().value<bool>(), "true member"); d["f"].value<int32_t>(7); REQUIRE(!d.d().value<bool>() && d["f"].value<int32_t>() == 7, "false member");
        REQUIRE(rejects([&]{ d.d(1); }), "label of the other member accepted");
    });
    add_case("labels as text", [=]{
        EnumerationType<uint32_t> e("E"); e.add_enumerator("AA", 3); e.add_enumerator("BB", 9);
        UnionType u("U", e); u.add_case_member({"AA"}, Member("a", StringType())); u.add_case_member({"BB", "default"}, Member("b", primitive_type<int16_t>()));
        REQUIRE(u.get_labels("a") == std::vector<int64_t>{3} && u.get_labels("b") == std::vector<int64_t>{9} && u.is_default("b"), "enumerator labels");
        UnionType c("C", primitive_type<int16_t>()); c.add_case_member({"-3", "0x10"}, Member("a", StringType())); c.add_case_member({"7"}, Member("b", StringType()));
        DynamicData d(c); d["a"].value<std::string>("k"); d.d(-3); REQUIRE(d.d().value<int16_t>() == -3, "-3"); d.d(16); REQUIRE(d.d().value<int16_t>() == 16, "16"); REQUIRE(rejects([&]{ d.d(7); }), "7");
    });
    for(size_t c = 0; c < N(80, 800); ++c) add_case("random union " + std::to_string(c), [=]{ Rng r = rng(77, c); Gen g(r); for(int i = 0; i < 3; ++i) { T t = g.unionty(2); c07_type(t, r, 30); } });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c07(); large_cases("u", false); }
