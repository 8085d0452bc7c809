// Run-time contract library: type descriptors, abstract (model) values, and the
// abstraction function from real data (public API only) to model values.
// Used for the replay of failed obligations and for the bounded stand-ins.
#pragma once
#include <xtypes/xtypes.hpp>
#include <xtypes/StringConversion.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

using namespace eprosima::xtypes;

// ------------------------------------------------------------------ allocation accounting
extern "C" { extern long xt_live; extern size_t xt_live_bytes; }

// ------------------------------------------------------------------ reporting
extern const char* xt_prop;
extern std::string xt_case;      // description of the running case
extern long xt_evals;
struct Fail { std::string msg; };
#define REQUIRE(c, m) do { ++xt_evals; if(!(c)) { throw Fail{std::string(m)}; } } while(0)

// ------------------------------------------------------------------ type descriptors
enum K { BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC,
         E8, E16, E32, STR, WSTR, STR16, ARR, SEQ, MAP, STRUCT, UNION, ALIAS };
static const char* KN[] = {"bool","i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","f128","c8","c16","wc",
         "e8","e16","e32","str","wstr","str16","arr","seq","map","struct","union","alias"};
inline bool is_prim(K k) { return k <= WC; }
inline bool is_enum(K k) { return k >= E8 && k <= E32; }
inline bool is_str(K k) { return k >= STR && k <= STR16; }
inline bool is_flt(K k) { return k >= F32 && k <= F128; }

template<class F> auto by_prim(K k, F f)
{
    switch(k)
    {
        case BOOL: return f(bool()); case I8: return f(int8_t()); case U8: return f(uint8_t());
        case I16: return f(int16_t()); case U16: return f(uint16_t()); case I32: return f(int32_t());
        case U32: return f(uint32_t()); case I64: return f(int64_t()); case U64: return f(uint64_t());
        case F32: return f(float()); case F64: return f(double()); case F128: return f((long double)(0));
        case C8: return f(char()); case C16: return f(char16_t()); case WC: return f(wchar_t());
        default: abort();
    }
}
template<class F> auto by_scalar(K k, F f)   // primitives and enumerations (by their C++ type)
{
    switch(k)
    {
        case E8: return f(uint8_t()); case E16: return f(uint16_t()); case E32: return f(uint32_t());
        default: return by_prim(k, f);
    }
}

struct TD;
using T = std::shared_ptr<TD>;
struct Mem { std::string name; T t; std::vector<int64_t> labels; bool def = false; };
struct TD
{
    K k; std::string name;
    uint32_t bound = 0;             // seq/map/string bound, array dimension
    T elem, key;                    // content / alias target ; map key
    std::vector<Mem> mem;           // struct, union
    size_t parent = 0;              // struct: number of leading members inherited from a parent type
    T disc;                         // union
    std::vector<std::pair<std::string, uint32_t>> en;
    std::shared_ptr<DynamicType> real;
    const DynamicType& r() const { return *real; }
    std::string str() const
    {
        std::string s = KN[k];
        switch(k)
        {
            case ARR: case SEQ: return s + "[" + std::to_string(bound) + "]<" + elem->str() + ">";
            case STR: case WSTR: case STR16: return bound ? s + "[" + std::to_string(bound) + "]" : s;
            case MAP: return s + "[" + std::to_string(bound) + "]<" + key->str() + "," + elem->str() + ">";
            case ALIAS: return s + "<" + elem->str() + ">";
            case STRUCT: case UNION:
            {
                s += "{"; if(disc) s += disc->str() + "|"; if(parent) s += "^" + std::to_string(parent) + "|";
                for(auto& m : mem) { s += m.name + ":" + m.t->str();
                    for(auto l : m.labels) { s += "/" + std::to_string(l); } if(m.def) s += "/d"; s += ","; }
                return s + "}";
            }
            default: return s;
        }
    }
};
inline T mk(K k) { auto t = std::make_shared<TD>(); t->k = k; t->name = KN[k]; return t; }
struct Hold : DynamicType { using P = DynamicType::Ptr; };
// The real type object of a descriptor, held by shared_ptr.
template<class X> std::shared_ptr<DynamicType> own(X&& x)
{
    using D = typename std::decay<X>::type;
    return std::static_pointer_cast<DynamicType>(std::make_shared<D>(std::forward<X>(x)));
}
inline T prim(K k)
{
    T t = mk(k);
    by_prim(k, [&](auto z) { using C = decltype(z);
        t->real = std::shared_ptr<DynamicType>(const_cast<DynamicType*>(&primitive_type<C>()), [](DynamicType*) {}); return 0; });
    return t;
}
inline T enumt(K k, std::vector<std::pair<std::string, uint32_t>> en, const std::string& name = "En")
{
    T t = mk(k); t->en = en;
    auto b = [&](auto z) { using C = decltype(z); auto e = std::make_shared<EnumerationType<C>>(name); for(auto& p : en) { e->add_enumerator(p.first, C(p.second)); } t->real = std::static_pointer_cast<DynamicType>(e); };
    if(k == E8) b(uint8_t()); else if(k == E16) b(uint16_t()); else b(uint32_t());
    return t;
}
inline T str(K k, uint32_t bound = 0)
{
    T t = mk(k); t->bound = bound;
    if(k == STR) t->real = own(StringType(bound)); else if(k == WSTR) t->real = own(WStringType(bound)); else t->real = own(String16Type(bound));
    return t;
}
inline T arr(T e, uint32_t n) { T t = mk(ARR); t->elem = e; t->bound = n; t->real = own(ArrayType(e->r(), n)); return t; }
inline T seq(T e, uint32_t n = 0) { T t = mk(SEQ); t->elem = e; t->bound = n; t->real = own(SequenceType(e->r(), n)); return t; }
inline T mapt(T ky, T e, uint32_t n = 0) { T t = mk(MAP); t->key = ky; t->elem = e; t->bound = n; t->real = own(MapType(ky->r(), e->r(), n)); return t; }
inline T alias(T e, const std::string& name = "Al") { T t = mk(ALIAS); t->elem = e; t->real = own(AliasType(e->r(), name)); return t; }
inline T structt(std::vector<Mem> mem, size_t parent = 0, const std::string& name = "St")
{
    T t = mk(STRUCT); t->mem = mem; t->parent = parent;
    if(parent)
    {
        StructType p(name + "P");
        for(size_t i = 0; i < parent; ++i) { p.add_member(mem[i].name, mem[i].t->r()); }
        StructType s(name, &p);
        for(size_t i = parent; i < mem.size(); ++i) { s.add_member(mem[i].name, mem[i].t->r()); }
        t->real = own(s);
    }
    else
    {
        StructType s(name);
        for(auto& m : mem) { s.add_member(m.name, m.t->r()); }
        t->real = own(s);
    }
    return t;
}
inline T uniont(T disc, std::vector<Mem> mem, const std::string& name = "Un")
{
    T t = mk(UNION); t->disc = disc; t->mem = mem;
    UnionType u(name, disc->r());
    for(auto& m : mem) { u.add_case_member<int64_t>(m.labels, Member(m.name, m.t->r()), m.def); }
    t->real = own(u);
    return t;
}
inline const TD& base(const TD& t) { return t.k == ALIAS ? base(*t.elem) : t; }
inline const TD& base(const T& t) { return base(*t); }

// ------------------------------------------------------------------ model values
struct V
{
    long double n = 0;              // primitives, enumerations
    std::u32string s;               // strings
    std::vector<V> kids;            // array/sequence elements, struct members, active union member; map: key,value,key,value...
    int sel = -1;                   // union: active member, or -1
    int64_t d = 0;                  // union: discriminator (only meaningful with sel >= 0)
};
bool veq(const TD& t, const V& a, const V& b);
inline std::string show(const TD& t0, const V& v)
{
    const TD& t = base(t0);
    if(is_prim(t.k) || is_enum(t.k)) { char b[64]; snprintf(b, 64, "%Lg", v.n); return b; }
    if(is_str(t.k)) { std::string r = "\""; for(auto c : v.s) r += c < 128 && c > 31 ? std::string(1, char(c)) : "\\" + std::to_string((uint32_t)c) + ";"; return r + "\""; }
    std::string r = "{";
    if(t.k == UNION) { if(v.sel < 0) return "{none}"; return "{" + std::to_string(v.d) + "->" + t.mem[v.sel].name + "=" + show(*t.mem[v.sel].t, v.kids[0]) + "}"; }
    for(size_t i = 0; i < v.kids.size() && i < 12; ++i)
    {
        if(t.k == STRUCT) r += t.mem[i].name + "=" + show(*t.mem[i].t, v.kids[i]) + " ";
        else if(t.k == MAP) r += show(i % 2 ? *t.elem : *t.key, v.kids[i]) + (i % 2 ? " " : ":");
        else r += show(*t.elem, v.kids[i]) + " ";
    }
    if(v.kids.size() > 12) r += "...";
    return r + "}";
}
inline bool veq(const TD& t0, const V& a, const V& b)
{
    const TD& t = base(t0);
    if(is_prim(t.k) || is_enum(t.k)) return a.n == b.n;
    if(is_str(t.k)) return a.s == b.s;
    if(t.k == UNION)
    {
        if(a.sel != b.sel) return false;
        return a.sel < 0 || (a.d == b.d && veq(*t.mem[a.sel].t, a.kids[0], b.kids[0]));
    }
    if(a.kids.size() != b.kids.size()) return false;
    if(t.k == MAP)
    {
        for(size_t i = 0; i < a.kids.size(); i += 2)
        {
            bool found = false;
            for(size_t j = 0; j < b.kids.size(); j += 2)
            {
                if(veq(*t.key, a.kids[i], b.kids[j])) { found = veq(*t.elem, a.kids[i + 1], b.kids[j + 1]); break; }
            }
            if(!found) return false;
        }
        return true;
    }
    for(size_t i = 0; i < a.kids.size(); ++i)
    {
        if(!veq(t.k == STRUCT ? *t.mem[i].t : *t.elem, a.kids[i], b.kids[i])) return false;
    }
    return true;
}
inline V vdefault(const TD& t0)
{
    const TD& t = base(t0);
    V v;
    if(t.k == ARR) { v.kids.assign(t.bound, vdefault(*t.elem)); }
    else if(t.k == STRUCT) { for(auto& m : t.mem) v.kids.push_back(vdefault(*m.t)); }
    else if(t.k == UNION)
    {
        for(size_t i = 0; i < t.mem.size(); ++i) if(t.mem[i].def) { v.sel = int(i); v.kids.push_back(vdefault(*t.mem[i].t));
            if(!t.mem[i].labels.empty()) v.d = t.mem[i].labels[0]; }
    }
    return v;
}
// ------------------------------------------------------------------ random model values
struct Rng
{
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s) {}
    uint64_t u() { return g(); }
    uint64_t below(uint64_t n) { return n ? g() % n : 0; }
    bool coin(int of = 2) { return below(of) == 0; }
};
inline int64_t interesting(Rng& r, int bits)
{
    static const int64_t S[] = {0, 1, 2, -1, -2, 7, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, INT64_MAX, INT64_MIN};
    (void)bits;
    return r.coin(3) ? int64_t(r.u()) : S[r.below(sizeof S / sizeof *S)];
}
inline V vrandom(const TD& t0, Rng& r, int size = 4)
{
    const TD& t = base(t0);
    V v;
    if(is_enum(t.k)) { v.n = t.en[r.below(t.en.size())].second; return v; }
    if(is_prim(t.k))
    {
        by_prim(t.k, [&](auto z) { using C = decltype(z);
            if constexpr(std::is_same<C, bool>::value) v.n = r.coin();
            else if constexpr(std::is_floating_point<C>::value) v.n = (long double)C((long double)(int64_t(r.u()) >> r.below(60)) / 8.0L);
            else v.n = (long double)C(interesting(r, 64));
            return 0; });
        return v;
    }
    if(is_str(t.k))
    {
        size_t n = r.coin(4) ? r.below(40) : r.below(8);
        if(t.bound) { n = r.coin(3) ? t.bound : std::min<size_t>(n, t.bound); }
        for(size_t i = 0; i < n; ++i) v.s.push_back(U'a' + char32_t(r.below(26)));
        return v;
    }
    if(t.k == ARR) { for(uint32_t i = 0; i < t.bound; ++i) v.kids.push_back(vrandom(*t.elem, r, size - 1)); }
    else if(t.k == STRUCT) { for(auto& m : t.mem) v.kids.push_back(vrandom(*m.t, r, size - 1)); }
    else if(t.k == SEQ)
    {
        size_t n = r.below(size > 0 ? size + 2 : 2); if(t.bound) n = r.coin(3) ? t.bound : std::min<size_t>(n, t.bound);
        for(size_t i = 0; i < n; ++i) v.kids.push_back(vrandom(*t.elem, r, size - 1));
    }
    else if(t.k == MAP)
    {
        size_t n = r.below(size > 0 ? size + 3 : 2); if(t.bound) n = std::min<size_t>(n, t.bound);
        for(size_t i = 0; i < n; ++i)
        {
            V key = vrandom(*t.key, r, size - 1);
            bool dup = false;
            for(size_t j = 0; j < v.kids.size(); j += 2) dup |= veq(*t.key, key, v.kids[j]);
            if(!dup) { v.kids.push_back(key); v.kids.push_back(vrandom(*t.elem, r, size - 1)); }
        }
    }
    else if(t.k == UNION)
    {
        v.sel = int(r.below(t.mem.size()));
        const Mem& m = t.mem[v.sel];
        if(!m.labels.empty()) v.d = m.labels[r.below(m.labels.size())];
        v.kids.push_back(vrandom(*m.t, r, size - 1));
    }
    return v;
}

// ------------------------------------------------------------------ real <-> model, through the public API
using R = ReadableDynamicDataRef;
using W = WritableDynamicDataRef;
template<class C> C cget(const V& v) { return C(v.n); }
inline std::string s8(const V& v) { return std::string(v.s.begin(), v.s.end()); }
inline std::wstring sw(const V& v) { return std::wstring(v.s.begin(), v.s.end()); }
inline std::u16string s16(const V& v) { return std::u16string(v.s.begin(), v.s.end()); }

V rread(const R& ref, const TD& t0);
void rwrite(W ref, const TD& t0, const V& v);

inline int64_t rdisc(const R& d, const TD& dt0)
{
    const TD& dt = base(dt0);
    return by_scalar(dt.k, [&](auto z) { using C = decltype(z); return int64_t(d.value<C>()); });
}
inline V rread(const R& ref, const TD& t0)
{
    const TD& t = base(t0);
    V v;
    if(is_prim(t.k) || is_enum(t.k)) { by_scalar(t.k, [&](auto z) { using C = decltype(z); v.n = ref.value<C>(); return 0; }); return v; }
    if(t.k == STR) { for(char c : ref.value<std::string>()) v.s.push_back((unsigned char)c); return v; }
    if(t.k == WSTR) { for(wchar_t c : ref.value<std::wstring>()) v.s.push_back(char32_t(c)); return v; }
    if(t.k == STR16) { for(char16_t c : ref.value<std::u16string>()) v.s.push_back(c); return v; }
    if(t.k == ARR || t.k == SEQ) { for(size_t i = 0, n = ref.size(); i < n; ++i) v.kids.push_back(rread(ref[i], *t.elem)); return v; }
    if(t.k == STRUCT) { for(auto& m : t.mem) v.kids.push_back(rread(ref[m.name], *m.t)); return v; }
    if(t.k == MAP)
    {
        for(const R& p : ref) { v.kids.push_back(rread(p[0], *t.key)); v.kids.push_back(rread(p[1], *t.elem)); }
        return v;
    }
    if(t.k == UNION)
    {
        const Member* m = nullptr;
        try { m = &ref.current_case(); } catch(const std::runtime_error&) { return v; }
        for(size_t i = 0; i < t.mem.size(); ++i) if(t.mem[i].name == m->name()) v.sel = int(i);
        if(v.sel < 0) throw Fail{"current_case() names an unknown member " + m->name()};
        v.d = t.mem[v.sel].labels.empty() ? 0 : rdisc(ref.d(), *t.disc);
        v.kids.push_back(rread(ref[m->name()], *t.mem[v.sel].t));
        return v;
    }
    return v;
}
// A key data for lookups
inline DynamicData rmake(const TD& t, const V& v)
{
    DynamicData d(t.r());
    rwrite(d.ref(), t, v);
    return d;
}
// precondition: ref holds default-constructed sequences/maps where they must be filled
inline void rwrite(W ref, const TD& t0, const V& v)
{
    const TD& t = base(t0);
    if(is_prim(t.k) || is_enum(t.k)) { by_scalar(t.k, [&](auto z) { using C = decltype(z); C c = C(v.n); ref.value<C>(c); return 0; }); }
    else if(t.k == STR) ref.value<std::string>(s8(v));
    else if(t.k == WSTR) ref.value<std::wstring>(sw(v));
    else if(t.k == STR16) ref.value<std::u16string>(s16(v));
    else if(t.k == ARR) { for(size_t i = 0; i < v.kids.size(); ++i) rwrite(ref[i], *t.elem, v.kids[i]); }
    else if(t.k == SEQ)
    {
        for(size_t i = ref.size(); i < v.kids.size(); ++i)
        {
            const TD& e = base(*t.elem);
            (void) e;
            DynamicData x = rmake(*t.elem, v.kids[i]);
            ref.push(x);
        }
    }
    else if(t.k == STRUCT) { for(size_t i = 0; i < t.mem.size(); ++i) rwrite(ref[t.mem[i].name], *t.mem[i].t, v.kids[i]); }
    else if(t.k == MAP)
    {
        for(size_t i = 0; i < v.kids.size(); i += 2) { DynamicData key = rmake(*t.key, v.kids[i]); rwrite(ref[key], *t.elem, v.kids[i + 1]); }
    }
    else if(t.k == UNION)
    {
        if(v.sel < 0) return;
        rwrite(ref[t.mem[v.sel].name], *t.mem[v.sel].t, v.kids[0]);
        if(!t.mem[v.sel].labels.empty()) ref.d(v.d);
    }
}
inline void rexpect(const R& ref, const TD& t, const V& v, const std::string& what)
{
    V got = rread(ref, t);
    REQUIRE(veq(t, got, v), what + ": expected " + show(t, v) + " but the data holds " + show(t, got) + " (type " + t.str() + ")");
}
template<class F> bool rejects(F f)      // true: the call raised an exception
{
    try { f(); } catch(const std::exception&) { return true; }
    return false;
}
// ------------------------------------------------------------------ bounded families of types
inline std::vector<std::pair<std::string, uint32_t>> en_vals(K k)
{
    if(k == E8) return {{"A", 0}, {"B", 1}, {"C", 5}, {"Z", 200}};
    if(k == E16) return {{"A", 0}, {"B", 1}, {"C", 300}, {"Z", 40000}};
    return {{"A", 0}, {"B", 1}, {"C", 70000}, {"Z", 3000000000u}};
}
inline T leaf(K k, uint32_t bound = 0) { return is_prim(k) ? prim(k) : is_enum(k) ? enumt(k, en_vals(k)) : str(k, bound); }
struct Gen
{
    Rng& r; int uid = 0;
    bool unions = true, maps = true, flt = true;
    explicit Gen(Rng& r) : r(r) {}
    T scalar()
    {
        for(;;) { K k = K(r.below(STR16 + 1)); if(!flt && is_flt(k)) continue; return leaf(k, is_str(k) && r.coin() ? uint32_t(1 + r.below(24)) : 0); }
    }
    T keyt()
    {
        switch(r.below(6)) {
            case 0: return prim(U64); case 1: return prim(I32); case 2: return prim(C8); case 3: return str(STR); case 4: return prim(U16); default: return str(STR, 20); }
    }
    T disct()
    {
        static const K D[] = {I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC, E32};
        T d = leaf(D[r.below(12)]);
        if(r.coin(6)) d = alias(d, "Disc" + std::to_string(uid++));
        return d;
    }
    T unionty(int depth)
    {
        T d = disct();
        const TD& bd = base(d);
        size_t n = 1 + r.below(4);
        std::vector<Mem> ms;
        std::vector<int64_t> pool;
        if(is_enum(bd.k)) { for(auto& e : bd.en) pool.push_back(e.second); }
        else if(bd.k == I8 || bd.k == I16 || bd.k == I32 || bd.k == I64) pool = {0, 1, 2, 3, 10, 100, -1, -2, -100};
        else pool = {0, 1, 2, 3, 10, 65, 100, 66, 90};
        std::shuffle(pool.begin(), pool.end(), r.g);
        bool hasdef = r.coin(); size_t dm = r.below(n);
        for(size_t i = 0; i < n && !pool.empty(); ++i)
        {
            Mem m; m.name = "u" + std::to_string(i); m.t = type(depth - 1);
            m.labels.push_back(pool.back()); pool.pop_back();
            if(r.coin() && !pool.empty()) { m.labels.push_back(pool.back()); pool.pop_back(); }
            if(hasdef && i == dm) { m.def = true; if(r.coin()) m.labels.clear(); }
            ms.push_back(m);
        }
        return uniont(d, ms, "Un" + std::to_string(uid++));
    }
    T type(int depth)
    {
        if(depth <= 0) return scalar();
        switch(r.below(9))
        {
            case 0: case 1: return scalar();
            case 2: return arr(type(depth - 1), uint32_t(1 + r.below(4)));
            case 3: return seq(type(depth - 1), r.coin() ? 0 : uint32_t(1 + r.below(5)));
            case 4: return maps ? mapt(keyt(), type(depth - 1), r.coin() ? 0 : uint32_t(1 + r.below(5))) : scalar();
            case 5: case 6: return structty(depth);
            case 7: return unions ? unionty(depth) : structty(depth);
            default: return alias(type(depth - 1), "Al" + std::to_string(uid++));
        }
    }
    T structty(int depth)
    {
        size_t n = 1 + r.below(5);
        std::vector<Mem> ms;
        for(size_t i = 0; i < n; ++i) { Mem m; m.name = "m" + std::to_string(i); m.t = type(depth - 1); ms.push_back(m); }
        return structt(ms, r.coin(4) ? 1 + r.below(n) : 0, "St" + std::to_string(uid++));
    }
};
// ------------------------------------------------------------------ case runner
struct Case { std::string name; std::function<void()> run; };
extern std::vector<Case> xt_cases;
inline void add_case(const std::string& n, std::function<void()> f) { xt_cases.push_back({n, f}); }
void register_cases(uint64_t seed, bool thorough);
