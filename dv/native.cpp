// Native runtime of the harnesses: replays a failed obligation on the real code. Inputs: first those of the verifier's counterexample,
// then random ones. A trial that breaks an ASSUME is dropped; a broken ASSERT or an error that AddressSanitizer sees is a failing input.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <new>
#include <unistd.h>
#include <exception>
using std::uint64_t; using std::uint32_t; using std::uint8_t; using std::uint16_t;
namespace {
struct Skip {};
std::vector<uint64_t>* model; size_t mi; bool use_model;
std::vector<uint64_t>* drawn; bool inside; const char* name; uint64_t rs, salt; int trial;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
uint64_t mix(uint64_t a) { a += 0x9E3779B97F4A7C15ULL; a = (a ^ (a >> 30)) * 0xBF58476D1CE4E5B9ULL; a = (a ^ (a >> 27)) * 0x94D049BB133111EBULL; return a ^ (a >> 31); }
uint64_t pick(int w)
{
    uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, r;
    if(use_model && mi < model->size()) r = (*model)[mi++];
    else switch(rnd() % 16)
    {
        case 0: case 1: r = rnd(); break;
        case 2: r = m - rnd() % 3; break;
        case 3: r = (1ull << (w - 1)) - 1 + rnd() % 3; break;
        case 4: case 5: r = rnd() % 40; break;
        case 6: r = 1ull << (rnd() % w); break;
        case 7: case 8: case 9: r = drawn->empty() ? 1 : (*drawn)[rnd() % drawn->size()] + (rnd() % 4 ? 0 : rnd() % 3 - 1); break;
        default: r = rnd() % 6;
    }
    r &= m; drawn->push_back(r); return r;
}
struct Inst { uint64_t ty, val; };
struct Slots { uint64_t t1, t2, n; bool two; uint64_t stride() const; };
struct World { std::map<uint64_t, bool> ctor; std::map<const uint8_t*, Inst> live; std::map<const uint8_t*, Slots> slots; std::map<const void*, size_t> heap; std::map<const void*, size_t> freed; size_t mark = 0; };
World* W; size_t serial;
struct Out { bool save; Out() : save(inside) { inside = false; } ~Out() { inside = save; } };
[[noreturn]] void bad(const char* n, const char* why)
{
    Out o; printf("FAIL harness=%s trial=%d obligation=%s :: %s; inputs=[", name, trial, n, why);
    for(auto v : *drawn) printf("%llu,", (unsigned long long)v);
    printf("]\n"); fflush(stdout); _exit(1);
}
uint64_t size(uint64_t ty) { return 8 * (1 + ty % 3); }
uint64_t Slots::stride() const { return size(t1) + (two ? size(t2) : 0); }
bool ctor(uint64_t ty) { auto i = W->ctor.find(ty); return i != W->ctor.end() && i->second; }
bool live(uint64_t ty, const uint8_t* p) { if(!ctor(ty)) return true; auto i = W->live.find(p); return i != W->live.end() && i->second.ty == ty; }
uint64_t get(uint64_t ty, const uint8_t* p) { if(ctor(ty)) { volatile uint8_t b = *p; (void)b; return W->live[p].val; } uint64_t v; memcpy(&v, p, 8); return v; }
void put(uint64_t ty, uint8_t* p, uint64_t v) { memset(p, 0, size(ty)); memcpy(p, &v, 8); if(ctor(ty)) W->live[p] = {ty, v}; }
void raw(uint64_t, uint8_t* p, const char* w) { if(W->live.count(p)) bad("lifetime", w); }
void need(uint64_t ty, const uint8_t* p, const char* w) { if(!live(ty, p)) bad("lifetime", w); }
void death() { if(name) { printf("FAIL harness=%s trial=%d obligation=memory-safety :: AddressSanitizer; inputs=[", name, trial); for(auto v : *drawn) printf("%llu,", (unsigned long long)v); printf("]\n"); fflush(stdout); } }
uint64_t hsh(uint64_t ty, uint64_t v) { return salt & 1 ? v : mix(v + ty); }
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
void* operator new(size_t n) { if(inside && n > (64u << 10)) throw Skip(); void* p = malloc(n ? n : 1); if(!p) abort(); if(inside) { Out o; W->heap[p] = serial++; W->freed.erase(p); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    if(!p) return;
    if(inside)
    {
        Out o; auto i = W->heap.find(p);
        if(i != W->heap.end()) { W->heap.erase(i); W->freed[p] = 1; }
        auto s = W->slots.find((uint8_t*)p);
        if(s != W->slots.end())
        {
            const uint8_t* e = (uint8_t*)p + s->second.n * s->second.stride();
            auto l = W->live.lower_bound((uint8_t*)p);
            if(l != W->live.end() && l->first < e) bad("lifetime", "the memory of a live instance is released");
            W->slots.erase(s);
        }
    }
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static std::vector<std::pair<const char*, void (*)()>>* reg;
extern "C" {
void __xt_native_register(const char* n, void (*f)()) { if(!reg) reg = new std::vector<std::pair<const char*, void (*)()>>; reg->push_back({n, f}); }
void __xt_native_kind(uint64_t id, bool c) { Out o; W->ctor.emplace(id, c); }
uint32_t __xt_native_pick(uint32_t k) { static const uint32_t K[] = {0x4001, 0x4005, 0x4086, 0x8002, 0x8014, 0x8026, 0x8003}; return k < 0x4000 ? K[k % 7] : k; }
uint64_t __xt_nondet_u64() { Out o; return pick(64); } uint32_t __xt_nondet_u32() { Out o; return pick(32); } uint16_t __xt_nondet_u16() { Out o; return pick(16); } uint8_t __xt_nondet_u8() { Out o; return pick(8); }
bool __xt_nondet_bool() { Out o; return (use_model && mi < model->size() ? pick(8) : pick(64)) & 1; }
long double __xt_nondet_ld() { Out o; double d; uint64_t r = pick(64); memcpy(&d, &r, 8); return d; }
void __xt_assume(bool c) { if(!c) throw Skip(); }
void __xt_assert(bool c, const char* n) { if(!c && !strncmp(n, "internal: ", 10)) throw Skip(); if(!c) bad(n, "does not hold"); }
uint64_t __xt_size(uint64_t ty) { return size(ty); }
void __xt_construct(uint64_t ty, uint8_t* p) { Out o; raw(ty, p, "constructs over a live instance"); put(ty, p, mix(ty + salt) % 5); }
void __xt_copy(uint64_t ty, uint8_t* d, const uint8_t* s) { Out o; need(ty, s, "copy from a dead instance"); raw(ty, d, "copies over a live instance"); put(ty, d, get(ty, s)); }
uint64_t __xt_v_conv(uint64_t ty, uint64_t v, uint64_t oty) { return ty == oty ? v : mix(ty * 7 + v * 3 + oty * 5 + salt) % 7; }
void __xt_conv(uint64_t ty, uint8_t* d, const uint8_t* s, uint64_t oty) { Out o; need(oty, s, "conversion from a dead instance"); raw(ty, d, "converts over a live instance"); put(ty, d, __xt_v_conv(ty, get(oty, s), oty)); }
void __xt_move(uint64_t ty, uint8_t* d, uint8_t* s, bool init)
{
    Out o; need(ty, s, "move from a dead instance"); if(init) need(ty, d, "move into a dead instance"); else raw(ty, d, "moves over a live instance");
    uint64_t v = get(ty, s); put(ty, d, v); if(ctor(ty) && d != s) put(ty, s, rnd() % 9);
}
void __xt_destroy(uint64_t ty, uint8_t* p) { Out o; need(ty, p, "destroys a dead instance"); if(ctor(ty)) W->live.erase(p); }
bool __xt_v_eq(uint64_t ty, uint64_t a, uint64_t b) { return a == b; }
uint64_t __xt_v_hash(uint64_t ty, uint64_t v) { return hsh(ty, v); }
uint64_t __xt_v_default(uint64_t ty) { return mix(ty + salt) % 5; }
bool __xt_v_ctor(uint64_t ty) { Out o; return ctor(ty); }
bool __xt_eq(uint64_t ty, const uint8_t* a, const uint8_t* b) { Out o; need(ty, a, "compares a dead instance"); need(ty, b, "compares a dead instance"); return __xt_v_eq(ty, get(ty, a), get(ty, b)); }
uint64_t __xt_hash(uint64_t ty, const uint8_t* a) { Out o; need(ty, a, "hash of a dead instance"); return hsh(ty, get(ty, a)); }
static uint64_t value() { return use_model && mi < model->size() ? pick(64) : rnd() % 5; }
static uint8_t* slots(uint64_t t1, uint64_t t2, uint64_t n, bool two)
{
    if(n > 4096) throw Skip();
    uint64_t z = size(t1) + (two ? size(t2) : 0); uint8_t* p = new uint8_t[n * z];
    Out o; W->slots[p] = {t1, t2, n, two};
    for(uint64_t i = 0; i < n; ++i) { put(t1, p + i * z, n == 1 && !two ? value() : rnd() % 5); if(two) put(t2, p + i * z + size(t1), rnd() % 5); }
    return p;
}
uint8_t* __xt_slots2(uint64_t t1, uint64_t t2, uint64_t n) { return slots(t1, t2, n, true); }
uint8_t* __xt_slots(uint64_t ty, uint64_t n) { return slots(ty, 0, n, false); }
void __xt_order(uint64_t, uint64_t) {}
bool __xt_live(uint64_t ty, const uint8_t* p) { Out o; return live(ty, p); }
uint64_t __xt_val(uint64_t ty, const uint8_t* p) { Out o; return live(ty, p) ? get(ty, p) : rnd(); }
void __xt_index(uint64_t) {}
void __xt_eqhash() {}
static uint64_t stride(uint64_t ty, const uint8_t* p) { auto s = W->slots.upper_bound(const_cast<uint8_t*>(p)); if(s == W->slots.begin()) return size(ty); --s; return p < s->first + s->second.n * s->second.stride() ? s->second.stride() : size(ty); }
bool __xt_forall_eq(uint64_t ty, const uint8_t* p, const uint8_t* q, uint64_t n) { Out o; uint64_t z = stride(ty, p), y = stride(ty, q); for(uint64_t i = 0; i < n; ++i) if(!__xt_v_eq(ty, get(ty, p + i * z), get(ty, q + i * y))) return false; return true; }
void __xt_sorted(uint64_t ty, const uint8_t* p, uint64_t n)
{
    Out o; uint64_t st = size(ty); auto s = W->slots.find(p); if(s != W->slots.end()) st = s->second.stride();
    std::map<uint64_t, uint64_t> m; while(m.size() < n) { uint64_t v = rnd() % (3 * n + 3); m[hsh(ty, v)] = v; }
    uint8_t* q = const_cast<uint8_t*>(p); for(auto& e : m) { put(ty, q, e.second); q += st; }
}
void __xt_spare(uint64_t ty, const uint8_t* p, uint64_t lo, uint64_t hi) { Out o; uint64_t st = size(ty); auto s = W->slots.find(const_cast<uint8_t*>(p)); if(s != W->slots.end()) st = s->second.stride(); for(uint64_t i = lo; i < hi; ++i) put(ty, const_cast<uint8_t*>(p) + i * st, mix(ty + salt) % 5); }
void __xt_absent(uint64_t ty, const uint8_t* p, uint64_t n, uint64_t h) { Out o; uint64_t st = size(ty); auto s = W->slots.find(p); if(s != W->slots.end()) st = s->second.stride(); for(uint64_t i = 0; i < n; ++i) if(hsh(ty, get(ty, p + i * st)) == h) throw Skip(); }
bool __xt_same_object(const void*, const void*) { abort(); }
bool __xt_freed(const void* p) { Out o; return !W->heap.count(p); }
void __xt_mark() { W->mark = serial; }
void __xt_noleak() { Out o; for(auto& e : W->heap) if(e.second >= W->mark) bad("no-leak", "memory is never released"); }
static uint64_t ufv(const char* f, uint64_t a, uint64_t b, uint64_t c) { uint64_t h = salt; for(; *f; ++f) h = h * 31 + *f; h = mix(h + mix(a + mix(b + mix(c)))); return (h >> 40) % 3 ? h % 64 : h % 3; }
uint64_t __xt_uf1(const char* f, uint64_t a) { return ufv(f, a, 1, 1); }
uint64_t __xt_uf2(const char* f, uint64_t a, uint64_t b) { bool c = !strcmp(f, "compat"); if(a == b && c) return 0; uint64_t r = ufv(f, a, b, 2); return c && r % 3 == 0 ? ~uint64_t(0) : r; }
uint64_t __xt_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c) { return ufv(f, a, b, c); }
}
// native REGEX-OR-NAME SEED TRIALS [model values]: exit 1 with a FAIL line for a failing input
int main(int argc, char** argv)
{
    __sanitizer_set_death_callback(death);
    model = new std::vector<uint64_t>; drawn = new std::vector<uint64_t>;
    int trials = argc > 3 ? atoi(argv[3]) : 20000; uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 0) : 1;
    for(int i = 4; i < argc; ++i) model->push_back(strtoull(argv[i], 0, 0));
    for(auto& e : *reg)
    {
        if(argc > 1 && strcmp(argv[1], "*") && strcmp(argv[1], e.first)) continue;
        name = e.first; long done = 0;
        for(trial = 0; trial < trials; ++trial)
        {
            W = new World; serial = 1; drawn->clear(); mi = 0; use_model = trial < 8 && !model->empty();
            rs = mix(seed * 1000003 + trial) | 1; salt = rnd();
            try { inside = true; e.second(); inside = false; ++done; }
            catch(const Skip&) { inside = false; }
            catch(const std::exception& x) { inside = false; bad("no-unexpected-exception", x.what()); }
            delete W;
        }
        printf("OK harness=%s trials=%d reached=%ld\n", e.first, trials, done); fflush(stdout);
    }
    _exit(0);
}
