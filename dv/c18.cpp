// C18: the chunked conversion of strings, over any facet that satisfies the contract of std::codecvt, for input of any length.
#include <string>
#include <string_view>
#include <locale>
#include <version>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <cwchar>
#include <cstdint>
enum class XByte : unsigned char {}; enum class XWide : unsigned char {};
extern "C" { uint64_t __xt_nondet_u64(); uint8_t __xt_nondet_u8(); bool __xt_nondet_bool(); void __xt_assume(bool); void __xt_assert(bool, const char*); uint64_t __xt_uf1(const char* f, uint64_t a); }
#define ASSERT(c, n) __xt_assert(bool(c), n)
#define ASSUME(c) __xt_assume(bool(c))
#ifdef XT_NATIVE
extern "C" void __xt_native_register(const char* n, void (*f)());
#define HARNESS(name) extern "C" void h_##name(); namespace { struct R_##name { R_##name() { __xt_native_register(#name, h_##name); } } r_##name; } extern "C" void h_##name()
#else
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void h_##name()
#endif
// what the conversion has done so far
struct Ghost { const void* input; const void* end; const void* next; uint64_t start, pending; uint8_t idle, valid, failed, space; } G;
// contract of codecvt::in and out: a prefix of the input is converted, and the corresponding bytes of the whole result are written from `to` on
template<class I, class O> std::codecvt_base::result contract(const I* from, const I* end, const I*& next, O* to, O* to_end, O*& to_next)
{
    ASSERT(G.pending == 0, "all that was converted is part of the result"); ASSERT(G.idle == 0, "an iteration makes progress"); ASSERT(G.failed == 0, "an error ends the conversion");
    ASSERT(from == static_cast<const I*>(G.next) && end == static_cast<const I*>(G.end), "the conversion goes on where it stopped, up to the end of the input");
    uint64_t left = uint64_t(end - from), space = uint64_t(to_end - to), k = __xt_nondet_u64(), m = __xt_nondet_u64(); ASSUME((k <= left) & (m <= space));
    ASSERT(space > 0, "there is space for the result"); bool ok = __xt_nondet_bool(), error = __xt_nondet_bool();
    if(G.valid) { ASSERT(space >= 4, "there is space for any character"); ASSUME(!error); ASSUME((left == 0) | (k > 0)); ASSUME((k == 0) == (m == 0)); if(k == left) ASSUME(ok); }
    for(uint64_t j = 0; j < space; ++j) to[j] = O(uint8_t(__xt_uf1("result", G.start + j)));
    G.pending = m; G.space = uint8_t(space); G.next = from + k; G.idle = (k == 0) & (m == 0); G.failed = error; next = from + k; to_next = to + m;
    return error ? std::codecvt_base::error : ok ? std::codecvt_base::ok : std::codecvt_base::partial;
}
// contract of std::basic_string as far as the conversion uses it: a text that grows at its end
template<class C> struct GhostString
{
    const C* p = nullptr; size_t n = 0;
    GhostString() {} GhostString(const C* q, size_t m) : p(q), n(m) {} GhostString(const C* q, const C* e) : p(q), n(size_t(e - q)) {}
    GhostString& append(const C* q, size_t m)
    {
        ASSERT(m == G.pending, "exactly what was converted is appended"); for(uint64_t j = 0; j < G.space; ++j) { C c = q[j]; ASSERT((j >= m) | (uint8_t(c) == uint8_t(__xt_uf1("result", G.start + j))), "the units are appended as converted"); }
        G.start += m; G.pending = 0; return *this;
    }
    GhostString& append(const C* q, const C* e) { return append(q, size_t(e - q)); }
    GhostString& append(const GhostString& s) { return append(s.p, s.n); }
    GhostString& operator+=(const GhostString& s) { return append(s.p, s.n); }
    void reserve(size_t) {}
};
namespace std
{
template<> class basic_string<XByte, char_traits<XByte>, allocator<XByte>> : public GhostString<XByte> { public: using GhostString<XByte>::GhostString; };
template<> class basic_string<XWide, char_traits<XWide>, allocator<XWide>> : public GhostString<XWide> { public: using GhostString<XWide>::GhostString; };
template<> class codecvt<XWide, XByte, mbstate_t>
{
public:
    codecvt_base::result in(mbstate_t&, const XByte* from, const XByte* end, const XByte*& next, XWide* to, XWide* to_end, XWide*& to_next) const { return contract(from, end, next, to, to_end, to_next); }
    codecvt_base::result out(mbstate_t&, const XWide* from, const XWide* end, const XWide*& next, XByte* to, XByte* to_end, XByte*& to_next) const { return contract(from, end, next, to, to_end, to_next); }
};
static codecvt<XWide, XByte, mbstate_t> FACET;
template<> const codecvt<XWide, XByte, mbstate_t>& use_facet<codecvt<XWide, XByte, mbstate_t>>(const locale&) { return FACET; }
}
#ifdef __cpp_char8_t
#undef __cpp_char8_t
#endif
#define __cpp_char8_t 1
#define char8_t XByte
#include <xtypes/StringConversion.hpp>
template<class F> bool rejects(F f) { try { f(); return false; } catch(const std::runtime_error&) { return true; } }
template<class O, class I> void convert(bool valid)
{
    uint64_t n = __xt_nondet_u64(); ASSUME((n > 0) & (n < (1ull << 20))); I* input = new I[n]; if(__xt_nondet_bool()) n = 0;
    G = Ghost(); G.input = input; G.next = input; G.end = input + n; G.valid = valid;
    std::basic_string_view<I> view(input, n); bool no = rejects([&]{ auto r = eprosima::code_conversion_tool<O>(view); });
    if(valid) ASSERT(!no, "a valid string is converted"); else ASSERT(no || !G.failed, "what cannot be converted is refused");
    if(!no) { ASSERT(G.pending == 0, "all that was converted is part of the result"); ASSERT(G.next == G.end, "the whole string is converted"); }
    delete[] input;
}
HARNESS(to_bytes) { convert<XByte, XWide>(true); }
HARNESS(to_wide) { convert<XWide, XByte>(true); }
HARNESS(any_to_bytes) { convert<XByte, XWide>(false); }
HARNESS(any_to_wide) { convert<XWide, XByte>(false); }
