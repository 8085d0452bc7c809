#include "common.hpp"
// ------------------------------------------------------------------ C18
static std::string utf8_of(const std::u16string& s)      // the standard encoding
{
    std::string o;
    for(size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = s[i];
        if(c >= 0xd800 && c < 0xdc00 && i + 1 < s.size()) { c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00); }
        if(c < 0x80) o += char(c);
        else if(c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if(c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    return o;
}
static void put_char(std::u16string& s, Rng& r, int cls)
{
    switch(cls)
    {
        case 0: s.push_back(char16_t(1 + r.below(0x7f))); break;
        case 1: s.push_back(char16_t(0x80 + r.below(0x780))); break;
        case 2: s.push_back(char16_t(r.coin() ? 0x800 + r.below(0xd000) : 0xe000 + r.below(0x1ffe))); break;
        default: s.push_back(char16_t(0xd800 + r.below(0x400))); s.push_back(char16_t(0xdc00 + r.below(0x400)));
    }
}
static void c18_one(const std::u16string& s)
{
    auto u = eprosima::code_conversion_tool<XTYPES_CHAR>(s);
    std::string got(u.begin(), u.end());
    REQUIRE(got == utf8_of(s), "UTF-8 of a string of " + std::to_string(s.size()) + " units is not the concatenation of its characters");
    auto back = eprosima::code_conversion_tool<char16_t>(u);
    REQUIRE(back == s, "a string of " + std::to_string(s.size()) + " units does not come back");
}
static void c18()
{
    for(int len = 0; len < 280; len += 4) add_case("length " + std::to_string(len), [=]{ for(int l = len; l < len + 4; ++l) for(size_t it = 0; it < N(20, 100); ++it) { Rng r = rng(18, l * 1000 + it); std::u16string s; int mode = int(r.below(6)); for(int i = 0; i < l; ++i) put_char(s, r, mode < 4 ? mode : int(r.below(4))); c18_one(s); } });
    add_case("positions", [=]{ for(int cls = 1; cls < 4; ++cls) for(int pos = 0; pos < 140; ++pos) for(int tail : {0, 1, 2, 70}) { Rng r = rng(181, cls * 1000 + pos); std::u16string s(size_t(pos), u'a'); put_char(s, r, cls); s += std::u16string(size_t(tail), u'b'); c18_one(s); } });
    add_case("long strings", [=]{ for(size_t n : {1000u, 4096u, 50000u}) for(int m = 0; m < 5; ++m) { Rng r = rng(182, n + m); std::u16string s; for(size_t i = 0; i < n; ++i) put_char(s, r, m < 4 ? m : int(r.below(4))); c18_one(s); } });
    add_case("invalid input ends", [=]{ for(size_t it = 0; it < N(3000, 40000); ++it) { Rng r = rng(183, it); std::u16string s; std::basic_string<XTYPES_CHAR> u; size_t n = r.below(150); for(size_t i = 0; i < n; ++i) { if(r.coin(8)) s.push_back(char16_t(0xd800 + r.below(0x800))); else put_char(s, r, int(r.below(4))); u.push_back(XTYPES_CHAR(r.coin(4) ? r.below(256) : r.below(128))); } rejects([&]{ eprosima::code_conversion_tool<XTYPES_CHAR>(s); }); rejects([&]{ eprosima::code_conversion_tool<char16_t>(u); });
        std::u16string cut = u"ok"; for(size_t i = 0; i < r.below(100); ++i) put_char(cut, r, int(r.below(4))); cut.push_back(char16_t(0xd800)); rejects([&]{ eprosima::code_conversion_tool<XTYPES_CHAR>(cut); }); } ++xt_evals; });
    add_case("to_string", [=]{ for(int cls = 0; cls < 3; ++cls) for(size_t it = 0; it < 200; ++it) { Rng r = rng(184, it); std::u16string s; size_t n = 1 + r.below(100); for(size_t i = 0; i < n; ++i) put_char(s, r, cls); DynamicData d{String16Type()}; d = s; REQUIRE(d.to_string().find(utf8_of(s)) != std::string::npos, "to_string() of a string16"); DynamicData w{WStringType()}; w = std::wstring(s.begin(), s.end()); REQUIRE(w.to_string().find(utf8_of(s)) != std::string::npos, "to_string() of a wstring"); DynamicData c(primitive_type<char16_t>()); c = s[0]; REQUIRE(c.to_string().find(utf8_of(s.substr(0, 1))) != std::string::npos, "to_string() of a char16"); } });
}
void register_cases(uint64_t seed, bool thorough) { SEED = seed; TH = thorough; c18(); }
