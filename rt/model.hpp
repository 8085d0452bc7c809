// Model-level operations: random mutation in lock step, conversion and compatibility oracles.
#pragma once
#include "xt.hpp"
inline bool is_seqlike(const TD& t) { return base(t).k == SEQ || base(t).k == MAP; }
inline size_t pick_label_member(const TD& t, Rng& r) { return r.below(t.mem.size()); }
inline bool selectable(const TD& t, size_t i) { return i < t.mem.size(); }
// 64-bit key hash collisions of *different* values are excluded from the properties; random values never meet one.

// One random mutation of the data behind ref, applied to the model too. Returns false if nothing could be done.
bool mutate(W ref, const TD& t0, V& v, Rng& r, int depth = 6);
inline bool mutate(W ref, const TD& t0, V& v, Rng& r, int depth)
{
    const TD& t = base(t0);
    if(is_prim(t.k) || is_enum(t.k) || is_str(t.k)) { v = vrandom(t, r); rwrite(ref, t, v); return true; }
    if(t.k == STRUCT)
    {
        if(t.mem.empty()) return false;
        size_t i = r.below(t.mem.size());
        if(r.coin(4) && depth > 0) { V nv = vrandom(*t.mem[i].t, r); DynamicData x = rmake(*t.mem[i].t, nv); ref[t.mem[i].name] = x; v.kids[i] = nv; return true; }
        return r.coin() ? mutate(ref[t.mem[i].name], *t.mem[i].t, v.kids[i], r, depth - 1) : mutate(ref[i], *t.mem[i].t, v.kids[i], r, depth - 1);
    }
    if(t.k == ARR)
    {
        if(v.kids.empty()) return false;
        size_t i = r.below(v.kids.size());
        if(r.coin(5)) { size_t j = r.below(v.kids.size()); ref[i] = ref[j]; v.kids[i] = V(v.kids[j]); return true; }
        return mutate(ref[i], *t.elem, v.kids[i], r, depth - 1);
    }
    if(t.k == SEQ)
    {
        size_t n = v.kids.size();
        switch(r.below(6))
        {
            case 0: case 1:
            {
                if(t.bound && n >= t.bound) { REQUIRE(rejects([&]{ DynamicData x(t.elem->r()); ref.push(x); }), "push over the bound accepted"); return true; }
                V nv = vrandom(*t.elem, r, 3); DynamicData x = rmake(*t.elem, nv); ref.push(x); v.kids.push_back(nv); return true;
            }
            case 2:
                if(n == 0 || (t.bound && n >= t.bound)) return false;
                { size_t i = r.below(n); V c = v.kids[i]; ref.push(ref[i]); v.kids.push_back(c); return true; }
            case 3:
            {
                size_t m = r.coin(3) ? r.below(n + 1) : n + r.below(4);
                if(t.bound && m > t.bound) { REQUIRE(rejects([&]{ ref.resize(m); }), "resize over the bound accepted"); return true; }
                ref.resize(m); while(v.kids.size() < m) v.kids.push_back(vdefault(*t.elem));
                return true;
            }
            default:
                if(n == 0) return false;
                { size_t i = r.below(n); return mutate(ref[i], *t.elem, v.kids[i], r, depth - 1); }
        }
    }
    if(t.k == MAP)
    {
        size_t n = v.kids.size() / 2;
        V key; size_t at = SIZE_MAX; bool own = false;
        if(n && r.coin(3)) { at = 2 * r.below(n); key = v.kids[at]; own = r.coin(3); }
        else { key = vrandom(*t.key, r, 2); for(size_t j = 0; j < v.kids.size(); j += 2) if(veq(*t.key, v.kids[j], key)) at = j; }
        DynamicData k = rmake(*t.key, key);
        REQUIRE(ref.has_key(k) == (at != SIZE_MAX), "has_key(" + show(*t.key, key) + ") is wrong in " + show(t, v));
        if(at != SIZE_MAX)
        {
            if(own) // the key of the lookup is the one stored in the map itself
            {
                for(const R& p : static_cast<const R&>(ref)) if(veq(*t.key, rread(p[0], *t.key), key)) { rexpect(ref.at(p[0]), *t.elem, v.kids[at + 1], "at(own key)"); break; }
            }
            if(r.coin()) { V nv = vrandom(*t.elem, r, 2); DynamicData x = rmake(*t.elem, nv); ref[k] = x; v.kids[at + 1] = nv; return true; }
            return mutate(r.coin() ? ref.at(k) : ref[k], *t.elem, v.kids[at + 1], r, depth - 1);
        }
        REQUIRE(rejects([&]{ ref.at(k); }), "at() of a key not in the map accepted");
        if(t.bound && n >= t.bound) { REQUIRE(rejects([&]{ ref[k]; }), "insertion over the bound accepted"); return true; }
        V nv = vrandom(*t.elem, r, 2);
        if(r.coin(3))
        {
            DynamicData p(PairType(t.key->r(), t.elem->r()));
            rwrite(p[0], *t.key, key); rwrite(p[1], *t.elem, nv);
            REQUIRE(ref.insert(p), "insert() of a new key returns false");
        }
        else if(r.coin(4)) { nv = vdefault(*t.elem); ref[k]; }
        else { DynamicData x = rmake(*t.elem, nv); ref[k] = x; }
        v.kids.push_back(key); v.kids.push_back(nv);
        return true;
    }
    if(t.k == UNION)
    {
        size_t i = r.below(t.mem.size());
        const Mem& m = t.mem[i];
        if(v.sel >= 0 && r.coin(4) && !t.mem[v.sel].labels.empty())
        {
            const Mem& a = t.mem[v.sel];
            int64_t l = a.labels[r.below(a.labels.size())];
            ref.d(l); v.d = l; return true;
        }
        if(v.sel >= 0 && r.coin()) return mutate(ref[t.mem[v.sel].name], *t.mem[v.sel].t, v.kids[0], r, depth - 1);
        W x = ref[m.name];
        if(v.sel != int(i)) { v.sel = int(i); v.kids.assign(1, vdefault(*m.t)); if(m.labels.empty()) v.d = 0; }
        if(!m.labels.empty())
        {
            v.d = rdisc(ref.d(), *t.disc);
            bool ok = false; for(auto l : m.labels) ok |= l == v.d;
            REQUIRE(ok, "selecting member '" + m.name + "' leaves the discriminator " + std::to_string(v.d) + ", which is not one of its labels (" + t.str() + ")");
        }
        rexpect(x, *m.t, v.kids[0], "member just selected");
        if(r.coin()) return mutate(x, *m.t, v.kids[0], r, depth - 1);
        return true;
    }
    return false;
}
// ------------------------------------------------------------------ compatibility oracle
enum : int { C_SIGN = 1, C_WIDTH = 2, C_SEQ = 4, C_ARR = 8, C_STR = 16, C_NAMES = 32, C_MEMBERS = 64, C_MAP = 128, C_NONE = ~0 };
inline int ksize(K k)
{
    if(k == E8) return 1; if(k == E16) return 2; if(k == E32) return 4;
    return by_prim(k, [](auto z) { return int(sizeof(z)); });
}
inline bool kuns(K k) { return k == U8 || k == U16 || k == U32 || k == U64; }
inline int ior(int a, int b) { return a == C_NONE || b == C_NONE ? C_NONE : a | b; }
inline int compat(const TD& a0, const TD& b0)
{
    const TD& a = base(a0); const TD& b = base(b0);
    if(a.k == STRUCT && a.mem.size() == 1) return compat(b, *a.mem[0].t);
    if(b.k == STRUCT && a.k != STRUCT)
    {
        if(a.k == UNION || a.k == MAP || a.k == ARR || a.k == SEQ || is_str(a.k) || is_prim(a.k) || is_enum(a.k)) return b.mem.size() == 1 ? compat(a, *b.mem[0].t) : C_NONE;
    }
    bool ap = is_prim(a.k), bp = is_prim(b.k), ae = is_enum(a.k), be = is_enum(b.k);
    if((ap || ae) && (bp || be))
    {
        if(ap && bp && a.k == b.k) return 0;
        int f = ksize(a.k) != ksize(b.k) ? C_WIDTH : 0;
        if(ae && be) return f;
        // enumerations count as unsigned
        if((ae || kuns(a.k)) != (be || kuns(b.k))) f |= C_SIGN;
        return f;
    }
    if(a.k != b.k) return C_NONE;
    if(is_str(a.k)) return a.bound == b.bound ? 0 : C_STR;
    if(a.k == ARR) return ior(a.bound == b.bound ? 0 : C_ARR, compat(*a.elem, *b.elem));
    if(a.k == SEQ) return ior(a.bound == b.bound ? 0 : C_SEQ, compat(*a.elem, *b.elem));
    if(a.k == MAP) return ior(a.bound == b.bound ? 0 : C_MAP, ior(compat(*a.key, *b.key), compat(*a.elem, *b.elem)));
    if(a.k == STRUCT || a.k == UNION)
    {
        int f = 0;
        if(a.k == UNION) { f = compat(*a.disc, *b.disc); if(f == C_NONE) return f; }
        for(size_t i = 0; i < a.mem.size() && i < b.mem.size(); ++i)
        {
            f = ior(f, compat(*a.mem[i].t, *b.mem[i].t)); if(f == C_NONE) return f;
            if(a.mem[i].name != b.mem[i].name) f |= C_NAMES;
        }
        if(a.mem.size() != b.mem.size()) f |= C_MEMBERS;
        return f;
    }
    return C_NONE;
}
// A random type related to t (same shape; bounds, widths, names, extra members, aliases changed)
inline T relative(const T& t, Rng& r, Gen& g, bool convertible = false)
{
    if(r.coin(8)) return alias(relative(t, r, g, convertible), "Ra" + std::to_string(g.uid++));
    switch(t->k)
    {
        case ALIAS: return r.coin() ? relative(t->elem, r, g, convertible) : alias(relative(t->elem, r, g, convertible), t->name);
        case ARR: return arr(relative(t->elem, r, g, convertible), r.coin() ? t->bound : uint32_t(1 + r.below(5)));
        case SEQ: return seq(relative(t->elem, r, g, convertible), r.coin() ? t->bound : uint32_t(r.below(5)));
        case MAP: return mapt(convertible ? t->key : relative(t->key, r, g), convertible ? t->elem : relative(t->elem, r, g), r.coin() ? t->bound : uint32_t(r.below(6)));
        case STR: case WSTR: case STR16: return str(t->k, r.coin() ? t->bound : uint32_t(r.below(12)));
        case STRUCT:
        {
            std::vector<Mem> ms;
            size_t n = t->mem.size();
            if(r.coin(4) && n > 1) n -= 1;
            for(size_t i = 0; i < n; ++i) { Mem m; m.name = r.coin(5) ? t->mem[i].name + "x" : t->mem[i].name; m.t = relative(t->mem[i].t, r, g, convertible); ms.push_back(m); }
            if(r.coin(4)) { Mem m; m.name = "extra" + std::to_string(g.uid++); m.t = g.type(1); ms.push_back(m); }
            return structt(ms, r.coin(4) ? 1 + r.below(ms.size()) : 0, "Rs" + std::to_string(g.uid++));
        }
        case UNION:
        {
            std::vector<Mem> ms = t->mem;
            for(auto& m : ms) { m.t = relative(m.t, r, g, convertible); if(r.coin(6)) m.name += "y"; }
            return uniont(t->disc, ms, "Ru" + std::to_string(g.uid++));
        }
        default:
            if(is_prim(t->k) && r.coin())
            {
                if(!convertible) return prim(K(r.below(WC + 1)));
                static const K NUM[] = {I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128};
                return prim(NUM[r.below(11)]);
            }
            if(!convertible && r.coin(10)) return g.scalar();
            return t;
    }
}
// ------------------------------------------------------------------ conversion oracle
struct NoConv {};
inline V conv(const TD& a0, const TD& b0, const V& v)    // value v of type b converted to type a
{
    const TD& a = base(a0); const TD& b = base(b0);
    V o;
    if(a.k == STRUCT && a.mem.size() == 1 && (b.k != STRUCT || (b.mem.size() != 1 && compat(*a.mem[0].t, b) != C_NONE))) { o.kids.push_back(conv(*a.mem[0].t, b, v)); return o; }
    if(b.k == STRUCT && b.mem.size() == 1 && a.k != STRUCT) return conv(a, *b.mem[0].t, v.kids[0]);
    if(is_prim(a.k) || is_enum(a.k))
    {
        by_scalar(b.k, [&](auto zb) { using B = decltype(zb); B bv = B(v.n);
            by_scalar(a.k, [&](auto za) { using A = decltype(za); o.n = (long double)A(bv); return 0; }); return 0; });
        return o;
    }
    if(is_str(a.k)) { o.s = v.s; if(a.bound && o.s.size() > a.bound) o.s.resize(a.bound); return o; }
    if(a.k == ARR) { for(size_t i = 0; i < a.bound; ++i) o.kids.push_back(i < v.kids.size() ? conv(*a.elem, *b.elem, v.kids[i]) : vdefault(*a.elem)); return o; }
    if(a.k == SEQ) { for(size_t i = 0; i < v.kids.size() && (!a.bound || i < a.bound); ++i) o.kids.push_back(conv(*a.elem, *b.elem, v.kids[i])); return o; }
    if(a.k == MAP)
    {
        for(size_t i = 0; i < v.kids.size(); i += 2) { o.kids.push_back(conv(*a.key, *b.key, v.kids[i])); o.kids.push_back(conv(*a.elem, *b.elem, v.kids[i + 1])); }
        return o;
    }
    if(a.k == STRUCT)
    {
        for(size_t i = 0; i < a.mem.size(); ++i) o.kids.push_back(i < b.mem.size() ? conv(*a.mem[i].t, *b.mem[i].t, v.kids[i]) : vdefault(*a.mem[i].t));
        return o;
    }
    if(a.k == UNION)
    {
        o.sel = v.sel; o.d = v.d;
        if(v.sel >= 0) o.kids.push_back(conv(*a.mem[v.sel].t, *b.mem[v.sel].t, v.kids[0]));
        return o;
    }
    throw NoConv{};
}
// Is the C++ conversion of every scalar of v to the related type defined (no float to integer overflow)?
inline bool conv_defined(const TD& a0, const TD& b0, const V& v)
{
    const TD& a = base(a0); const TD& b = base(b0);
    if(a.k == STRUCT && a.mem.size() == 1 && (b.k != STRUCT || (b.mem.size() != 1 && compat(*a.mem[0].t, b) != C_NONE))) return conv_defined(*a.mem[0].t, b, v);
    if(b.k == STRUCT && b.mem.size() == 1 && a.k != STRUCT) return conv_defined(a, *b.mem[0].t, v.kids[0]);
    if(is_enum(a.k) && (is_prim(b.k) || is_enum(b.k))) return true;
    if(is_prim(a.k))
    {
        if(!is_flt(b.k) || a.k == BOOL) { if(is_flt(b.k) || !is_flt(a.k)) return true; return true; }
        if(is_flt(a.k)) { return by_prim(a.k, [&](auto z) { using A = decltype(z); return std::abs(v.n) < (long double)std::numeric_limits<A>::max() / 2; }); }
        return by_prim(a.k, [&](auto z) { using A = decltype(z); long double lo = (long double)std::numeric_limits<A>::lowest(), hi = (long double)std::numeric_limits<A>::max(); return v.n > lo - 1 && v.n < hi + 1; });
    }
    if(is_str(a.k)) return true;
    if(a.k == ARR || a.k == SEQ) { for(auto& k : v.kids) if(!conv_defined(*a.elem, *b.elem, k)) return false; return true; }
    if(a.k == MAP) { for(size_t i = 0; i < v.kids.size(); ++i) if(!conv_defined(i % 2 ? *a.elem : *a.key, i % 2 ? *b.elem : *b.key, v.kids[i])) return false; return true; }
    if(a.k == STRUCT) { for(size_t i = 0; i < a.mem.size() && i < b.mem.size(); ++i) if(!conv_defined(*a.mem[i].t, *b.mem[i].t, v.kids[i])) return false; return true; }
    if(a.k == UNION) { if(a.mem.size() != b.mem.size()) return false; for(size_t i = 0; i < a.mem.size(); ++i) if(a.mem[i].labels != b.mem[i].labels || a.mem[i].def != b.mem[i].def) return false; }
    if(a.k == UNION) return v.sel < 0 || conv_defined(*a.mem[v.sel].t, *b.mem[v.sel].t, v.kids[0]);
    return true;
}
// Do maps nested in the pair of types have the same key and value types (the only map conversion offered)?
inline bool maps_convertible(const TD& a0, const TD& b0)
{
    const TD& a = base(a0); const TD& b = base(b0);
    if(a.k == STRUCT && a.mem.size() == 1 && (b.k != STRUCT || (b.mem.size() != 1 && compat(*a.mem[0].t, b) != C_NONE))) return maps_convertible(*a.mem[0].t, b);
    if(b.k == STRUCT && b.mem.size() == 1 && a.k != STRUCT) return maps_convertible(a, *b.mem[0].t);
    if(a.k == MAP && b.k == MAP) return a.key->r().name() == b.key->r().name() && a.elem->r().name() == b.elem->r().name();
    if((a.k == ARR || a.k == SEQ) && a.k == b.k) return maps_convertible(*a.elem, *b.elem);
    if((a.k == STRUCT || a.k == UNION) && a.k == b.k) { for(size_t i = 0; i < a.mem.size() && i < b.mem.size(); ++i) if(!maps_convertible(*a.mem[i].t, *b.mem[i].t)) return false; }
    return true;
}
// Map truncation picks an unspecified subset: compare through this when a bounded map is the target
inline bool conv_matches(const TD& a0, const TD& b0, const V& src, const V& got)
{
    const TD& a = base(a0); const TD& b = base(b0);
    if(a.k == MAP && b.k == MAP)
    {
        V full = conv(a, b, src);
        if(got.kids.size() != (a.bound ? std::min<size_t>(full.kids.size(), 2 * size_t(a.bound)) : full.kids.size())) return false;
        for(size_t i = 0; i < got.kids.size(); i += 2)
        {
            bool ok = false;
            for(size_t j = 0; j < full.kids.size(); j += 2) ok |= veq(*a.key, got.kids[i], full.kids[j]) && veq(*a.elem, got.kids[i + 1], full.kids[j + 1]);
            if(!ok) return false;
        }
        return true;
    }
    if(a.k == STRUCT && a.mem.size() == 1 && (b.k != STRUCT || (b.mem.size() != 1 && compat(*a.mem[0].t, b) != C_NONE))) return conv_matches(*a.mem[0].t, b, src, got.kids[0]);
    if(b.k == STRUCT && b.mem.size() == 1 && a.k != STRUCT) return conv_matches(a, *b.mem[0].t, src.kids[0], got);
    if(a.k == ARR || a.k == SEQ || a.k == STRUCT)
    {
        V want = conv(a, b, src);
        if(want.kids.size() != got.kids.size()) return false;
        for(size_t i = 0; i < got.kids.size(); ++i)
        {
            const TD& ea = a.k == STRUCT ? *a.mem[i].t : *a.elem;
            bool has = i < src.kids.size() && (a.k != STRUCT || i < b.mem.size());
            if(has ? !conv_matches(ea, a.k == STRUCT ? *b.mem[i].t : *b.elem, src.kids[i], got.kids[i]) : !veq(ea, want.kids[i], got.kids[i])) return false;
        }
        return true;
    }
    if(a.k == UNION) return got.sel == src.sel && (got.sel < 0 || (got.d == src.d && conv_matches(*a.mem[got.sel].t, *b.mem[got.sel].t, src.kids[0], got.kids[0])));
    return veq(a, conv(a, b, src), got);
}
