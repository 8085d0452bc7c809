// Module.hpp with std::string and std::map bound to their contracts: a name is known by what "::" splits it into, a map by the names that are in it.
// The function bodies are compiled unchanged. Recursive calls of a member function are known by their contracts (__xt_replace_rec_*): induction over the tree and the name.
#pragma once
#include "xtd.hpp"
#include <set>
#include <iosfwd>
extern "C" void __xt_unsupported();
using Real = std::string;
namespace xn
{
static const uint64_t NPOS = ~0ull;
// id of a name; the functions of a name are uninterpreted functions of its id
inline uint64_t len(uint64_t n) { uint64_t l = __xt_uf1("name.length", n); ASSUME(l < (1ull << 30)); return l; }
inline uint64_t sep(uint64_t n) { uint64_t s = __xt_uf1("name.separator", n); ASSUME((s == NPOS) | (s + 2 <= len(n))); return s; }          // where the first "::" starts
inline uint64_t pre(uint64_t n) { uint64_t p = __xt_uf1("name.first", n); ASSUME((sep(n) == NPOS) | ((len(p) == sep(n)) & (sep(p) == NPOS))); return p; }       // what is before it
inline uint64_t rest(uint64_t n) { uint64_t r = __xt_uf1("name.rest", n); ASSUME((sep(n) == NPOS) | (len(r) == len(n) - sep(n) - 2)); return r; }                  // what is after it
inline uint64_t cat(uint64_t a, uint64_t b) { uint64_t r = __xt_uf2("name.concatenation", a, b); ASSUME(len(r) == len(a) + len(b)); return r; }
inline uint64_t lit(const char* s) { uint64_t h = 1469598103934665603ull; size_t n = 0; for(; s[n]; ++n) h = (h ^ uint8_t(s[n])) * 1099511628211ull; ASSUME(len(h) == n); return h; }
inline bool colons(const char* s) { return s[0] == ':' && s[1] == ':' && s[2] == 0; }
}
inline Real raw(uint64_t id) { char b[8]; memcpy(b, &id, 8); return Real(b, 8); }
inline uint64_t unraw(const Real& s) { if(s.size() != 8) __xt_unsupported(); uint64_t id; memcpy(&id, s.data(), 8); return id; }
struct XName
{
    static constexpr size_t npos = ~size_t(0);
    uint64_t id;
    bool known = true;
    XName() : id(xn::lit("")) {}
    XName(const char* s) : id(xn::lit(s)) {}
    XName(const Real& s) : id(unraw(s)) {}
    static XName of(uint64_t n) { XName x(""); x.id = n; return x; }
    uint64_t get() const { if(!known) __xt_unsupported(); return id; }
    operator Real() const { return raw(get()); }
    size_t find(const char* s, size_t p = 0) const { if(!xn::colons(s) || p != 0) __xt_unsupported(); return xn::sep(get()); }
    size_t rfind(const char* s, size_t p = npos) const { if(!xn::colons(s) || p != 0) __xt_unsupported(); return xn::sep(get()) == 0 ? 0 : npos; }
    int compare(size_t p, size_t n, const char* s) const { if(!xn::colons(s) || p != 0 || n != 2) __xt_unsupported(); return xn::sep(get()) == 0 ? 0 : 1; }
    size_t size() const { return xn::len(get()); } size_t length() const { return size(); } bool empty() const { return size() == 0; }
    XName substr(size_t p = 0, size_t n = npos) const
    {
        uint64_t s = xn::sep(get()), l = xn::len(id);
        if(p == 0 && n >= l) return *this;
        if(p == 0 && n == s) return of(xn::pre(id));
        if(s != npos && p == s + 2 && n == npos) return of(xn::rest(id));
        __xt_unsupported(); return *this;
    }
    XName& operator+=(const XName& o) { id = xn::cat(get(), o.get()); return *this; }
};
inline bool operator==(const XName& a, const XName& b) { return a.get() == b.get(); }
inline bool operator!=(const XName& a, const XName& b) { return a.get() != b.get(); }
inline XName operator+(const XName& a, const XName& b) { return XName::of(xn::cat(a.get(), b.get())); }
inline XName operator+(const char* a, const XName& b) { return XName(a) + b; }
inline XName operator+(const XName& a, const char* b) { return a + XName(b); }
inline std::ostream& operator<<(std::ostream& o, const XName&) { return o; }
static uint64_t MAPS = 0;
template<class K, class V> struct XMap
{
    using value_type = std::pair<const K, V>;
    uint64_t id = ++MAPS; bool known = false;
    value_type* cell = nullptr; value_type* other = nullptr; uint64_t key = 0;     // the entity of the name `key`, and that of another name
    uint64_t inserted = 0, erased = 0, ikey = 0, ekey = 0;
    struct iterator
    {
        const XMap* m; uint64_t k;
        value_type* operator->() const { value_type* c = !m ? nullptr : k == m->key ? m->cell : m->other; if(!c) __xt_unsupported(); return c; }
        value_type& operator*() const { return *operator->(); }
        bool operator==(const iterator& o) const { return m == o.m; } bool operator!=(const iterator& o) const { return m != o.m; } iterator& operator++() { __xt_unsupported(); return *this; }
    };
    using const_iterator = iterator;
    static bool in(uint64_t map, uint64_t k) { return __xt_uf2("in", map, k) & 1; }
    bool has(uint64_t k) const { if(!known) __xt_unsupported(); bool h = in(id, k); if(erased) h = h & (ekey != k); if(inserted) h = h | (ikey == k); return h; }
    size_t count(const K& k) const { return has(k.get()); }
    iterator find(const K& k) const { return iterator{has(k.get()) ? this : nullptr, k.get()}; }
    iterator begin() const { __xt_unsupported(); return iterator{nullptr, 0}; }
    iterator end() const { return iterator{nullptr, 0}; }
    size_t size() const { __xt_unsupported(); return 0; }
    V& at(const K& k) const { iterator i = find(k); if(!i.m) std::__throw_out_of_range("map::at"); return i->second; }
    void erase(iterator i) { if(i.m != this || erased || inserted) __xt_unsupported(); erased = 1; ekey = i.k; if(i.k == key) cell = nullptr; }
    template<class W> std::pair<iterator, bool> emplace(const K& k, W&& w)
    {
        if(has(k.get())) return {find(k), false};
        if(inserted) __xt_unsupported();
        cell = new value_type(k, std::forward<W>(w)); key = ikey = k.get(); inserted = 1; return {iterator{this, key}, true};
    }
};
namespace std { using ::XName; using ::XMap; }
#define string XName
#define map XMap
#define protected public
#define private public
#include <xtypes/idl/Module.hpp>
#undef string
#undef map
#undef protected
#undef private
using namespace eprosima::xtypes::idl;
#ifndef XT_NATIVE
extern "C" __attribute__((used)) size_t __xt_replace__ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4findEPKcm(const Real* s, const char* n, size_t p) { if(!xn::colons(n) || p != 0) __xt_unsupported(); return xn::sep(unraw(*s)); }
#endif
inline bool defines(const Module* m, uint64_t n) { return m->structs_.has(n) | m->unions_.has(n) | m->aliases_.has(n) | m->enumerations_32_.has(n) | m->constants_.has(n) | m->inner_.has(n); }
inline void know(Module* m) { m->structs_.known = m->unions_.known = m->aliases_.known = m->enumerations_32_.known = m->constants_.known = m->constants_types_.known = m->inner_.known = true; }
// a module with an arbitrary content, in a tree of any shape: an enclosing module or none, submodules, and the module R in which the recursive resolutions end
struct Res { bool found; uint64_t n; const Module* m; };
struct Tree { Module* m; Module* outer; Module* child; Module* other; Module* r; uint64_t full, symbol; bool first; Res up, down, self; bool up_has; uint32_t up_count; } T;
inline Res any_result() { Res x{nd<bool>(), nd<uint64_t>(), T.r}; ASSUME(!x.found | (defines(T.r, x.n) & (xn::sep(x.n) == xn::NPOS))); return x; }
inline void tree(uint64_t full, uint64_t symbol, bool first)
{
    T = Tree(); T.full = full; T.symbol = symbol; T.first = first;
    T.m = new Module(); know(T.m); T.m->name_ = XName::of(nd<uint64_t>());
    T.outer = nd<bool>() ? new Module() : nullptr; T.m->outer_ = T.outer; if(T.outer) T.outer->name_.known = false;
    T.child = new Module(); T.other = new Module(); T.child->name_.known = T.other->name_.known = false; T.r = new Module(); know(T.r); T.r->name_.known = false;
    uint64_t p = xn::pre(symbol); auto& i = T.m->inner_; i.key = p;
    i.cell = new std::pair<const XName, std::shared_ptr<Module>>(XName::of(p), std::shared_ptr<Module>(T.child)); i.other = new std::pair<const XName, std::shared_ptr<Module>>(XName::of(0), std::shared_ptr<Module>(T.other));
    T.up = any_result(); T.down = any_result(); T.self = any_result(); T.up_has = nd<bool>(); T.up_count = nd<uint32_t>();
}
// what the name denotes, one level of the definition of the property
inline Res denoted()
{
    uint64_t s = xn::sep(T.symbol);
    Res none{false, 0, T.r};
    if(s == 0 && T.first) return T.outer ? T.up : T.self;                                       // from the root
    if(s == 0) return none;                                                                        // an empty segment denotes nothing
    if(s != xn::NPOS) { if(T.m->inner_.has(xn::pre(T.symbol))) return T.down; }                  // a::b inside the nearest module with a submodule a
    else if(defines(T.m, T.symbol)) return Res{true, T.symbol, T.m};                              // the innermost module that defines it
    return T.first && T.outer ? T.up : none;
}
#ifndef XT_NATIVE
extern "C" __attribute__((used)) void __xt_replace_rec__ZNK8eprosima6xtypes3idl6Module13resolve_scopeERK5XNameS5_b(std::pair<const Module*, XName>* result, const Module* m, const XName* symbol, const XName* original, bool first)
{
    Res x;
    if(m == T.outer) { ASSERT(T.first && first && symbol->get() == T.full && original->get() == T.full, "internal: the enclosing module is asked for the whole name"); x = T.up; }
    else if(m == T.child) { ASSERT(!first && symbol->get() == xn::rest(T.symbol) && original->get() == T.full, "internal: a submodule is asked for the rest of the name"); x = T.down; }
    else { ASSERT(m == T.m && !T.outer && !first && xn::sep(T.symbol) == 0 && symbol->get() == xn::rest(T.symbol) && original->get() == T.full, "internal: only the root resolves the rest of a name from itself"); x = T.self; }
    new(result) std::pair<const Module*, XName>(x.found ? x.m : nullptr, XName::of(x.found ? x.n : original->get()));
}
extern "C" __attribute__((used)) bool __xt_replace_rec__ZNK8eprosima6xtypes3idl6Module10has_symbolERK5XNameb(const Module* m, const XName* n, bool extend) { ASSERT(m == T.outer && extend && n->get() == T.full, "internal: the enclosing module is asked for the whole name"); return T.up_has; }
extern "C" __attribute__((used)) unsigned __xt_replace_rec__ZNK8eprosima6xtypes3idl6Module12symbol_countERK5XName(const Module* m, const XName* n) { ASSERT(m == T.outer && n->get() == T.full, "internal: the enclosing module is asked for the whole name"); return T.up_count; }
extern "C" __attribute__((used)) XName __xt_replace_rec__ZNK8eprosima6xtypes3idl6Module5scopeEv(const Module* m) { if(m != T.outer) __xt_unsupported(); return XName::of(nd<uint64_t>()); }
#endif
inline uint64_t any_name() { return nd<uint64_t>(); }
template<class F> bool refused(F f) { try { f(); return false; } catch(const std::exception&) { return true; } }
