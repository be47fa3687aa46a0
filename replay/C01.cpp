// native replay for C01: the codecs against an independent implementation of the Unicode encodings
#include "common.hpp"
#include <configor/json.hpp>
#include <sstream>
#include <cstring>
using namespace configor;
typedef std::vector<uint32_t> Units;

static bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static Units enc8(uint32_t c)
{
    if (c < 0x80) return { c };
    if (c < 0x800) return { 0xC0 + c / 64, 0x80 + c % 64 };
    if (c < 0x10000) return { 0xE0 + c / 4096, 0x80 + c / 64 % 64, 0x80 + c % 64 };
    return { 0xF0 + c / 262144, 0x80 + c / 4096 % 64, 0x80 + c / 64 % 64, 0x80 + c % 64 };
}
static Units enc16(uint32_t c)
{
    if (c < 0x10000) return { c };
    c -= 0x10000;
    return { 0xD800 + c / 1024, 0xDC00 + c % 1024 };
}
static Units enc32(uint32_t c) { return { c }; }
enum K { GOOD, BAD, END, ANYTHING };
struct Exp { K k; uint32_t cp; size_t n; };
static bool cb(uint32_t x) { return x >= 0x80 && x <= 0xBF; }
static Exp dec8(const Units& u)
{
    if (u.empty()) return { END, 0, 0 };
    uint32_t b = u[0];
    if (b < 0x80) return { GOOD, b, 1 };
    size_t n = b >= 0xC0 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF8 ? 4 : b >= 0xF8 && b < 0xFC ? 5 : b >= 0xFC && b < 0xFE ? 6 : 0;
    if (!n) return { ANYTHING, 0, 0 };
    static const uint32_t m[] = { 0, 0, 0x1F, 0xF, 7, 3, 1 };
    uint64_t v = b & m[n];
    size_t i = 1;
    for (; i < n && i < u.size(); ++i) { if (!cb(u[i])) return { ANYTHING, 0, 0 }; v = v * 64 + (u[i] & 0x3F); }
    if (i < n) return { n <= 4 && b >= 0xC2 && b <= 0xF4 ? BAD : ANYTHING, 0, 0 };
    if (v > 0x10FFFF) return { BAD, 0, 0 };
    if (!scalar((uint32_t)v) || enc8((uint32_t)v).size() != n) return { ANYTHING, 0, 0 };
    return { GOOD, (uint32_t)v, n };
}
static Exp dec16(const Units& u)
{
    if (u.empty()) return { END, 0, 0 };
    if (u[0] < 0xD800 || u[0] > 0xDFFF) return { GOOD, u[0], 1 };
    if (u[0] >= 0xDC00) return { ANYTHING, 0, 0 };
    if (u.size() < 2 || u[1] < 0xDC00 || u[1] > 0xDFFF) return { BAD, 0, 0 };
    return { GOOD, 0x10000 + (u[0] - 0xD800) * 1024 + (u[1] - 0xDC00), 2 };
}
static Exp dec32(const Units& u)
{
    if (u.empty()) return { END, 0, 0 };
    if (u[0] > 0x10FFFF) return { BAD, 0, 0 };
    if (!scalar(u[0])) return { ANYTHING, 0, 0 };
    return { GOOD, u[0], 1 };
}
// stream buffers over a unit vector, not using any code of the library
template <class C> struct In : std::basic_streambuf<C>
{
    typedef std::char_traits<C> T; std::basic_string<C> s; size_t i = 0;
    typename T::int_type underflow() override { return i < s.size() ? T::to_int_type(s[i]) : T::eof(); }
    typename T::int_type uflow() override { return i < s.size() ? T::to_int_type(s[i++]) : T::eof(); }
};
template <class C> struct Out : std::basic_streambuf<C>
{
    typedef std::char_traits<C> T; std::basic_string<C> s;
    typename T::int_type overflow(typename T::int_type c) override { s.push_back(T::to_char_type(c)); return T::not_eof(c); }
    std::streamsize xsputn(const C* p, std::streamsize n) override { s.append(p, n); return n; }
};
template <class C> static std::string showU(const Units& u) { std::string r; for (auto x : u) r += HEX(x) + " "; return r; }

template <class C> static void tryDec(const char* nm, bool (*d)(std::basic_istream<C>&, uint32_t&), Exp (*ref)(const Units&), const Units& u)
{
    ++g_cases;
    static In<C> b; b.s.clear(); b.i = 0;
    for (auto x : u) b.s.push_back((C)x);
    static std::basic_istream<C> is(&b); is.clear();
    uint32_t cp = 0xDEADBEEF;
    bool r = d(is, cp);
    Exp e = ref(u);
    std::string id = std::string(nm) + " decode of units " + showU<C>(u);
    if (e.k == END && (r || !is.eof() || is.bad() || b.i != 0)) FAILMSG(id + ": end of input not reported as such");
    if (e.k == GOOD && (!r || !is.good() || cp != e.cp || b.i != e.n))
        FAILMSG(id + ": expected U+" + HEX(e.cp) + " using " + std::to_string(e.n) + " units, got " + (r ? "" : "end, ") + (is.good() ? "" : "failed stream, ") + "U+" + HEX(cp) + " using " + std::to_string(b.i));
    if (e.k == BAD && !is.fail()) FAILMSG(id + ": accepted as U+" + HEX(cp) + ", must fail the stream");
}
template <class C> static void tryEnc(const char* nm, void (*f)(std::basic_ostream<C>&, uint32_t), Units (*ref)(uint32_t), uint32_t c)
{
    ++g_cases;
    static Out<C> b; b.s.clear();
    static std::basic_ostream<C> os(&b); os.clear();
    f(os, c);
    Units got; for (auto x : b.s) got.push_back(sizeof(C) == 1 ? (uint8_t)x : (uint32_t)x);
    std::string id = std::string(nm) + " encode of U+" + HEX(c);
    if (scalar(c)) { if (!os.good() || got != ref(c)) FAILMSG(id + ": expected units " + showU<C>(ref(c)) + "got " + showU<C>(got) + (os.good() ? "" : "and a failed stream")); }
    else if (c > 0x10FFFF) { if (!os.fail() || !got.empty()) FAILMSG(id + ": must write nothing and fail, wrote " + showU<C>(got)); }
}
template <class C> static void both(const char* nm, bool (*d)(std::basic_istream<C>&, uint32_t&), void (*f)(std::basic_ostream<C>&, uint32_t),
                                    Units (*re)(uint32_t), Exp (*rd)(const Units&), bool u8)
{
    for (uint32_t c = 0; c <= 0x10FFFF; ++c) {
        tryEnc<C>(nm, f, re, c);
        if (scalar(c)) { Units u = re(c); tryDec<C>(nm, d, rd, u); if ((c & 63) == 0 || c < 0x3000) { Units w = u; w.push_back(u8 ? 0x41 : 0xDC00); tryDec<C>(nm, d, rd, w); w.pop_back();
            while (w.size() > 1) { w.pop_back(); tryDec<C>(nm, d, rd, w); } } }
        if (g_fails > 20) return;
    }
    for (uint32_t i = 0; i < 35000; ++i) { tryEnc<C>(nm, f, re, 0x110000 + i); tryEnc<C>(nm, f, re, 0xFFFFFFFFu - i); tryEnc<C>(nm, f, re, 0x110000u + i * 122000u); }
    tryDec<C>(nm, d, rd, {});
}
template <class C> static void bytes(const char* nm, bool (*d)(std::basic_istream<C>&, uint32_t&))
{
    for (uint32_t a = 0; a < 256; ++a) { tryDec<C>(nm, d, dec8, { a }); for (uint32_t b = 0; b < 256; ++b) tryDec<C>(nm, d, dec8, { a, b }); }
    std::vector<uint32_t> s = { 0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xF0, 0xF4, 0xF8, 0xFF };
    for (uint32_t a = 0xC0; a < 256; ++a) for (auto b : s) for (auto c : s) { tryDec<C>(nm, d, dec8, { a, b, c }); for (auto e : s) { tryDec<C>(nm, d, dec8, { a, b, c, e });
        if (a >= 0xF8) { tryDec<C>(nm, d, dec8, { a, b, c, e, 0x80 }); tryDec<C>(nm, d, dec8, { a, b, c, e, 0xBF, 0x80 }); tryDec<C>(nm, d, dec8, { a, b, c, e, 0x8F, 0x80, 0x41 }); } } }
}
template <class C> static void ign(const char* nm)
{
    uint32_t top = sizeof(C) == 1 ? 256 : 0x20000;
    for (uint32_t v = 0; v < top; ++v) {
        ++g_cases;
        In<C> b; b.s.push_back((C)v); b.s.push_back((C)'x');
        std::basic_istream<C> is(&b); uint32_t cp = 7;
        bool r = encoding::ignore<C>::decode(is, cp);
        if (!r || !is.good() || (C)cp != (C)v || b.i != 1) FAILMSG(std::string(nm) + " decode of unit " + HEX(v) + " is not passed through");
        Out<C> o; std::basic_ostream<C> os(&o);
        encoding::ignore<C>::encode(os, v);
        if (o.s != std::basic_string<C>(1, (C)v) || !os.good()) FAILMSG(std::string(nm) + " encode of unit " + HEX(v) + " is not passed through");
    }
    In<C> b; std::basic_istream<C> is(&b); uint32_t cp = 7;
    if (encoding::ignore<C>::decode(is, cp) || !is.eof()) FAILMSG(std::string(nm) + ": end of input not reported");
}
int main(int argc, char** argv)
{
    using namespace encoding;
    GUARD("utf8<char>", [] { both<char>("utf8<char>", utf8<char>::decode, utf8<char>::encode, enc8, dec8, true); bytes<char>("utf8<char>", utf8<char>::decode); });
    GUARD("utf8<wchar_t>", [] { both<wchar_t>("utf8<wchar_t>", utf8<wchar_t>::decode, utf8<wchar_t>::encode, enc8, dec8, true); });
    GUARD("auto_utf<char>", [] { both<char>("auto_utf<char>", auto_utf<char>::decode, auto_utf<char>::encode, enc8, dec8, true); bytes<char>("auto_utf<char>", auto_utf<char>::decode); });
    GUARD("utf16", [] { both<wchar_t>("utf16<wchar_t>", utf16<wchar_t>::decode, utf16<wchar_t>::encode, enc16, dec16, false);
        for (uint32_t a = 0; a <= 0xFFFF; a += (a >= 0xD7F0 && a < 0xE010) ? 1 : 97) for (uint32_t b : { 0u, 0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDC01u, 0xDFFEu, 0xDFFFu, 0xE000u, 0xFFFFu })
            tryDec<wchar_t>("utf16<wchar_t>", utf16<wchar_t>::decode, dec16, { a, b });
        for (uint32_t a = 0xD7F0; a < 0xE010; ++a) tryDec<wchar_t>("utf16<wchar_t>", utf16<wchar_t>::decode, dec16, { a }); });
    auto w32 = [](const char* nm, bool (*d)(std::wistream&, uint32_t&), void (*f)(std::wostream&, uint32_t)) {
        both<wchar_t>(nm, d, f, enc32, dec32, false);
        for (uint32_t i = 0; i < 100000; ++i) { tryDec<wchar_t>(nm, d, dec32, { 0x110000 + i }); tryDec<wchar_t>(nm, d, dec32, { 0xFFFFFFFEu - i }); } };
    GUARD("utf32", [&] { w32("utf32<wchar_t>", utf32<wchar_t>::decode, utf32<wchar_t>::encode); });
    GUARD("auto_utf<wchar_t>", [&] { w32("auto_utf<wchar_t>", auto_utf<wchar_t>::decode, auto_utf<wchar_t>::encode); });
    GUARD("ignore", [] { ign<char>("ignore<char>"); ign<wchar_t>("ignore<wchar_t>"); });
    for (int i = 1; i < argc; ++i) {     // counterexamples of the verifier
        std::string a = argv[i];
        if (a.compare(0, 4, "dec:") == 0) {
            size_t p = a.find(':', 4), q = a.find(':', p + 1);
            std::string k = a.substr(4, p - 4), ct = a.substr(p + 1, q - p - 1);
            Units u; for (char* s = std::strtok(&a[q + 1], ","); s; s = std::strtok(nullptr, ",")) u.push_back(std::strtoul(s, nullptr, 16));
            if (k == "U8" && ct == "char") { tryDec<char>("utf8<char>", utf8<char>::decode, dec8, u); tryDec<char>("auto_utf<char>", auto_utf<char>::decode, dec8, u); }
            if (k == "U8" && ct != "char") tryDec<wchar_t>("utf8<wchar_t>", utf8<wchar_t>::decode, dec8, u);
            if (k == "U16") tryDec<wchar_t>("utf16<wchar_t>", utf16<wchar_t>::decode, dec16, u);
            if (k == "U32") { tryDec<wchar_t>("utf32<wchar_t>", utf32<wchar_t>::decode, dec32, u); tryDec<wchar_t>("auto_utf<wchar_t>", auto_utf<wchar_t>::decode, dec32, u); }
        } else if (a.compare(0, 4, "enc:") == 0) {
            size_t p = a.find(':', 4), q = a.find(':', p + 1);
            std::string k = a.substr(4, p - 4), ct = a.substr(p + 1, q - p - 1); uint32_t c = std::strtoul(&a[q + 1], nullptr, 16);
            if (k == "U8" && ct == "char") { tryEnc<char>("utf8<char>", utf8<char>::encode, enc8, c); tryEnc<char>("auto_utf<char>", auto_utf<char>::encode, enc8, c); }
            if (k == "U8" && ct != "char") tryEnc<wchar_t>("utf8<wchar_t>", utf8<wchar_t>::encode, enc8, c);
            if (k == "U16") tryEnc<wchar_t>("utf16<wchar_t>", utf16<wchar_t>::encode, enc16, c);
            if (k == "U32") { tryEnc<wchar_t>("utf32<wchar_t>", utf32<wchar_t>::encode, enc32, c); tryEnc<wchar_t>("auto_utf<wchar_t>", auto_utf<wchar_t>::encode, enc32, c); }
        }
    }
    return FINISH();
}
