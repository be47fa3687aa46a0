// bounded native cross-check of C16 (argument sources) and C17 (argument sinks): every mix of single and block operations on every kind of source or sink
#include "common.hpp"
#include <configor/json.hpp>
#include <clocale>
#include <locale>
#include <memory>
#include <sstream>
using namespace configor;
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {} uint32_t operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 32); } };
template <class C> struct In : basic_iadapter<C> { std::basic_string<C> t; size_t p = 0; C end = 0; C read() override { return p < t.size() ? t[p++] : (++p, end); } using basic_iadapter<C>::read; };
template <class C> struct InB : In<C> { void read(C* s, size_t n) override { for (size_t i = 0; i < n; ++i) s[i] = In<C>::read(); } };
template <class C> struct Out : basic_oadapter<C> { std::basic_string<C> t; void write(const C c) override { t += c; } using basic_oadapter<C>::write; };
template <class C> struct OutB : Out<C> { void write(const C* s, size_t n) override { this->t.append(s, n); } };

static FILE* file_of(const std::string& t) { FILE* f = std::tmpfile(); if (!t.empty()) std::fwrite(t.data(), 1, t.size(), f); std::rewind(f); return f; }
static FILE* file_of(const std::wstring& t) { FILE* f = std::tmpfile(); for (wchar_t c : t) std::fputwc(c, f); std::rewind(f); return f; }

// random walk over one source; strict: beyond the end reads may be tried
template <class C> static void walk(const std::string& what, std::basic_streambuf<C>* sb, const std::basic_string<C>& t, Rng& r, bool pastend, bool ends = false)
{
    using TR = std::char_traits<C>;
    ++g_cases;
    size_t p = 0;
    std::string log;
    auto bad = [&](const std::string& m) { FAILMSG(what + " text " + SHOW(t) + " ops" + log + ": " + m); };
    for (int step = 0; step < 14; ++step) {
        size_t left = t.size() - p;
        unsigned op = r() % 5;
        if (!pastend && left == 0) { if (!ends) break; op %= 2; }
        if (op == 0) {
            log += " peek";
            auto c = sb->sgetc();
            if (p < t.size()) { if (TR::eq_int_type(c, TR::eof()) || TR::to_char_type(c) != t[p]) return bad("peek at " + std::to_string(p) + " gave " + HEX((unsigned long)(unsigned)c)); }
            else if (!TR::eq_int_type(c, TR::eof())) return bad("peek past the end gave " + HEX((unsigned long)(unsigned)c));
        } else if (op == 1) {
            log += " get";
            auto c = sb->sbumpc();
            if (p < t.size()) { if (TR::eq_int_type(c, TR::eof()) || TR::to_char_type(c) != t[p]) return bad("get at " + std::to_string(p) + " gave " + HEX((unsigned long)(unsigned)c)); ++p; }
            else if (!TR::eq_int_type(c, TR::eof())) return bad("get past the end gave " + HEX((unsigned long)(unsigned)c));
        } else {
            long n = op == 2 ? 1 + (long)(r() % 3) : op == 3 ? (long)(r() % 9) : (long)(r() % (2 * t.size() + 2));
            if (r() % 16 == 0) n = -(long)(r() % 3);
            if (!pastend && n > (long)left) n = (long)left;
            log += " read" + std::to_string(n);
            std::vector<C> b(n < 0 ? 4 : (size_t)n + 4, (C)0x55);
            long g = (long)sb->sgetn(b.data() + 1, n);
            long want = n < 0 ? 0 : n < (long)left ? n : (long)left;
            if (g != want) return bad("read of " + std::to_string(n) + " reported " + std::to_string(g) + " of " + std::to_string(want));
            for (long i = 0; i < g; ++i) if (b[(size_t)i + 1] != t[p + (size_t)i]) return bad("read delivered a wrong character at " + std::to_string(p + (size_t)i));
            if (b[0] != (C)0x55) return bad("wrote in front of the destination");
            for (size_t i = (size_t)g + 1; i < b.size(); ++i) if (b[i] != (C)0x55) return bad("wrote behind the characters reported");
            p += (size_t)g;
        }
    }
}
template <class C> static std::basic_string<C> mk(Rng& r, bool nul, bool filesafe)
{
    std::basic_string<C> t;
    size_t n = r() % 14;
    if (r() % 8 == 0) n = 40 + r() % 60;
    while (t.size() < n) {
        unsigned k = r() % 8;
        uint32_t c = 'a' + r() % 26;
        if (sizeof(C) == 1) { if (k < 2) c = 0x80 + r() % 0x7F; if (k == 2) c = 1 + r() % 31; if (k == 3 && nul) c = 0; if (k == 4 && nul) c = 0xFF; }
        else { if (k < 2) c = filesafe ? 0xA0 + r() % 0x100 : 0x80 + r() % 0x10000; if (k == 2) c = 0x1F600 + r() % 9; if (k == 3 && nul) c = 0; if (k == 4 && !filesafe) c = 0x7FFFFFFF - r() % 3; }
        t += (C)c;
    }
    return t;
}
template <class C> static void sources(uint64_t seed, int rounds, bool files, const char* nm)
{
    Rng r(seed);
    for (size_t n : { (size_t)255, (size_t)256, (size_t)4096, (size_t)65536, (size_t)70001 }) {
        std::basic_string<C> t(n, (C)'x'), g(n + 8, (C)'#'); for (size_t i = 0; i < n; ++i) t[i] = (C)('a' + (i * 7 + i / 26) % 26);
        ++g_cases;
        auto rd = [&](const char* k, std::basic_streambuf<C>* sb, long ask) { long c = (long)sb->sgetn(&g[0], ask); if (c != (long)n || g.compare(0, n, t) != 0) FAILMSG(std::string(k) + " " + nm + ": block read of " + std::to_string(ask) + " of " + std::to_string(n) + " characters reports " + std::to_string(c)); };
        { detail::fast_string_istreambuf<C> b(t); rd("string", &b, (long)n + 5); }
        { detail::fast_buffer_istreambuf<C> b(t.c_str()); rd("C string", &b, (long)n + 5); }
        { FILE* f = file_of(t); detail::fast_cfile_istreambuf<C> b(f); rd("C file", &b, (long)n + 5); std::fclose(f); }
        { In<C> a; a.t = t; basic_iadapterstream<C> is(a); rd("adapter", is.rdbuf(), (long)n); }
    }
    for (int i = 0; i < rounds; ++i) {
        { auto t = mk<C>(r, true, false); detail::fast_string_istreambuf<C> b(t); walk<C>(std::string("string ") + nm, &b, t, r, true); }
        { auto t = mk<C>(r, false, false); detail::fast_buffer_istreambuf<C> b(t.c_str()); walk<C>(std::string("C string ") + nm, &b, t, r, true); }
        if (files && i % 4 == 0) { auto t = mk<C>(r, true, true); FILE* f = file_of(t); { detail::fast_cfile_istreambuf<C> b(f); walk<C>(std::string("C file ") + nm, &b, t, r, true); } std::fclose(f); }
        { auto t = mk<C>(r, false, false); In<C> a; a.t = t; a.end = r() % 2 ? (C)0 : (C)-1; basic_iadapterstream<C> is(a); walk<C>(std::string("adapter ") + nm, is.rdbuf(), t, r, false, a.end != (C)0); }
        { auto t = mk<C>(r, false, false); InB<C> a; a.t = t; basic_iadapterstream<C> is(a); walk<C>(std::string("block adapter ") + nm, is.rdbuf(), t, r, false); }
    }
}
template <class F> static std::string res(F f)
{
    try { json::value v = f(); return "value " + std::to_string((int)v.type()) + " " + json::dump(v); }
    catch (const configor_deserialization_error& e) { (void)e; return "a deserialization error"; }
    catch (const std::exception& e) { return std::string("other error ") + e.what(); }
}
template <class F> static std::string resv(F f) { return res([&] { json::value v = "old"; f(v); return v; }); }
static void parses(const std::string& d)
{
    ++g_cases;
    std::istringstream ss(d);
    const std::string want = res([&] { return json::parse(ss); });
    auto chk = [&](const char* k, const std::string& got) { if (got != want) FAILMSG(std::string("parse from ") + k + " of " + SHOW(d) + " gives " + got + ", from a stream " + want); };
    chk("a string", res([&] { return json::parse(d); }));
    chk("a string (value)", resv([&](json::value& v) { json::parse(v, d); }));
    { std::istringstream s2(d); chk("a stream (value)", resv([&](json::value& v) { json::parse(v, s2); })); }
    if (d.find('\0') == d.npos) { chk("a C string", res([&] { return json::parse(d.c_str()); })); chk("a C string (value)", resv([&](json::value& v) { json::parse(v, d.c_str()); })); }
    { FILE* f = file_of(d); chk("a C file", res([&] { return json::parse<char>(f); })); std::fclose(f); }
    { FILE* f = file_of(d); chk("a C file (value)", resv([&](json::value& v) { json::parse<char>(v, f); })); std::fclose(f); }
    if (d.find('\0') == d.npos && d.find('\xFF') == d.npos) {
        // the end of an adapter is an end-of-file character; a NUL does for a complete document
        for (int e = want[0] == 'v' ? 0 : 1; e < 2; ++e) {
            { In<char> a; a.t = d; a.end = e ? (char)-1 : 0; iadapterstream is(a); chk("an adapter", res([&] { return json::parse(is); })); }
            { InB<char> a; a.t = d; a.end = e ? (char)-1 : 0; iadapterstream is(a); chk("a block adapter", resv([&](json::value& v) { json::parse(v, is); })); }
        }
    }
    // the same document as wide text
    std::wstring w; std::mbstate_t mb{}; bool ascii = true;
    for (char c : d) { if ((unsigned char)c > 0x7f || c == 0) ascii = false; w += (wchar_t)c; }
    if (ascii) {
        chk("a wide string", res([&] { return json::parse(w); }));
        chk("a wide string (value)", resv([&](json::value& v) { json::parse(v, w); }));
        chk("a wide C string", res([&] { return json::parse(w.c_str()); }));
        chk("a wide C string (value)", resv([&](json::value& v) { json::parse(v, w.c_str()); }));
        { FILE* f = file_of(w); chk("a wide C file", res([&] { return json::parse<wchar_t>(f); })); std::fclose(f); }
        { FILE* f = file_of(w); chk("a wide C file (value)", resv([&](json::value& v) { json::parse<wchar_t>(v, f); })); std::fclose(f); }
        { In<wchar_t> a; a.t = w; a.end = (wchar_t)-1; wiadapterstream is(a); chk("a wide adapter", res([&] { return json::parse(is); })); }
        { std::wistringstream is(w); chk("a wide stream", res([&] { return json::parse(is); })); }
    }
}
template <class C> static void sink(const std::string& what, std::basic_streambuf<C>* sb, const std::basic_string<C>& got, std::basic_string<C> want, Rng& r)
{
    using TR = std::char_traits<C>;
    ++g_cases;
    std::string log;
    for (int i = 0; i < 10; ++i) {
        auto t = mk<C>(r, true, false);
        if (r() % 3 == 0) {
            C c = t.empty() ? (C)'x' : t[0];
            if (TR::eq_int_type(TR::to_int_type(c), TR::eof())) c = (C)'y';
            log += " put" + HEX((unsigned long)(uint32_t)c);
            if (TR::eq_int_type(sb->sputc(c), TR::eof())) { FAILMSG(what + log + ": put reported failure"); return; }
            want += c;
        } else {
            if (r() % 5 == 0) t.clear();
            log += " write" + SHOW(t);
            long n = (long)sb->sputn(t.data(), (long)t.size());
            if (n != (long)t.size()) { FAILMSG(what + log + ": write of " + std::to_string(t.size()) + " reported " + std::to_string(n)); return; }
            want += t;
        }
        if (got != want) { FAILMSG(what + log + ": sink holds " + SHOW(got) + ", written " + SHOW(want)); return; }
    }
    sb->pubsync();
    if (got != want) FAILMSG(what + log + ": flush changed the text");
}
template <class C> static void sinks(uint64_t seed, int rounds, const char* nm)
{
    Rng r(seed);
    for (size_t n : { (size_t)255, (size_t)256, (size_t)4096, (size_t)65536, (size_t)70001 }) {
        std::basic_string<C> t(n, (C)'x'); for (size_t i = 0; i < n; ++i) t[i] = (C)('a' + (i * 7 + i / 26) % 26);
        ++g_cases;
        { std::basic_string<C> g; detail::fast_string_ostreambuf<C> b(g); b.sputn(t.data(), (long)n); b.sputn(t.data(), (long)n); if (g != t + t) FAILMSG("string sink: block of " + std::to_string(n)); }
        { Out<C> a; basic_oadapterstream<C> os(a); os.write(t.data(), (long)n); os.write(t.data(), (long)n); if (a.t != t + t) FAILMSG(std::string("adapter ") + nm + ": block of " + std::to_string(n) + " characters arrives as " + std::to_string(a.t.size() / 2)); }
    }
    for (int i = 0; i < rounds; ++i) {
        { auto t = mk<C>(r, true, false); auto t0 = t; detail::fast_string_ostreambuf<C> b(t); sink<C>(std::string("string ") + nm, &b, t, t0, r); }
        { detail::fast_basic_ostringstream<C> ss; sink<C>(std::string("string stream ") + nm, ss.rdbuf(), ss.str(), ss.str(), r); }
        { Out<C> a; basic_oadapterstream<C> os(a); sink<C>(std::string("adapter ") + nm, os.rdbuf(), a.t, a.t, r); }
        { OutB<C> a; basic_oadapterstream<C> os(a); sink<C>(std::string("block adapter ") + nm, os.rdbuf(), a.t, a.t, r); }
    }
}
template <class C> static void dumps(const json::value& v, const char* nm)
{
    using S = detail::json_serializer<json::value, C>;
    for (int o = 0; o < 5; ++o) {
        ++g_cases;
        std::vector<typename S::option> ops;
        std::initializer_list<typename S::option> none;
        auto go = [&](auto f) {
            switch (o) {
            case 1: f(std::initializer_list<typename S::option>{ S::with_indent(2) }); break;
            case 2: f(std::initializer_list<typename S::option>{ S::with_unicode_escaping(true), S::with_indent(1, (C)'\t') }); break;
            case 3: f(std::initializer_list<typename S::option>{ S::with_precision(3) }); break;
            case 4: f(std::initializer_list<typename S::option>{ S::with_indent(3), S::with_indent(1), S::with_unicode_escaping(true), S::with_unicode_escaping(false) }); break;
            default: f(none);
            }
        };
        auto err = [&](auto f) -> std::basic_string<C> { std::basic_string<C> r; try { r = f(); } catch (const std::exception& e) { r = { (C)'E' }; } return r; };
        std::basic_string<C> want, got;
        go([&](auto l) { want = err([&] { std::basic_ostringstream<C> ss; json::dump<C>(ss, v, l); return ss.str(); }); });
        auto chk = [&](const char* k) { if (got != want) FAILMSG(std::string("dump to ") + k + " " + nm + " option " + std::to_string(o) + " gives " + SHOW(got) + ", to a stream " + SHOW(want)); };
        go([&](auto l) { got = err([&] { return json::dump<C>(v, l); }); }); chk("a new string");
        go([&](auto l) { got = err([&] { std::basic_string<C> s; json::dump<C>(s, v, l); return s; }); }); chk("a string");
        go([&](auto l) { got = err([&] { std::basic_string<C> s; s.reserve(5000); s += (C)'>'; json::dump<C>(s, v, l); if (s.empty() || s[0] != (C)'>') { FAILMSG("text in front lost in a string with spare capacity"); return s; } return s.substr(1); }); }); chk("a string with spare capacity");
        std::basic_string<C> pre{ (C)'p', (C)0, (C)'{' };
        go([&](auto l) { got = err([&] { auto s = pre; json::dump<C>(s, v, l); if (s.compare(0, 3, pre)) FAILMSG("text in front lost"); return s.substr(3); }); }); chk("a filled string");
        go([&](auto l) { got = err([&] { Out<C> a; basic_oadapterstream<C> os(a); json::dump<C>(os, v, l); return a.t; }); }); chk("an adapter");
        go([&](auto l) { got = err([&] { OutB<C> a; basic_oadapterstream<C> os(a); json::dump<C>(os, v, l); return a.t; }); }); chk("a block adapter");
    }
}
int main(int argc, char** argv)
{
    bool deep = argc > 2 && std::string(argv[2]) == "thorough";
    bool sink = argc > 1 && std::string(argv[1]) == "sinks";
    uint64_t seed = std::getenv("VERIF_SEED") ? std::strtoull(std::getenv("VERIF_SEED"), nullptr, 10) : 1;
    if (!sink) {
    GUARD("narrow sources", [&] { sources<char>(seed, deep ? 200000 : 12000, true, "char"); });
    GUARD("wide sources", [&] { bool u = std::setlocale(LC_CTYPE, "C.UTF-8") != nullptr; sources<wchar_t>(seed + 7, deep ? 200000 : 12000, u, "wchar_t"); });
    std::vector<std::string> docs = { "", " ", "1", "-12.5e3", "true", "tru", "nul", "null x", "\"a\\u00e9\\n\"", "\"abc", "\"\xc3\xa9\xf0\x9f\x98\x80\"", "\xc3", "[\"\xc3\"]", "[1,2,[3,{\"k\":false}],]", "{\"a\":1,\"b\":[],\"a\":2}", "{\"a\"}", "[1 2]", "// c\n1", "/* x */ 2 /**/", "/* open", "1/",
        "[", "{", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "+", "01", "1.", "1e", "\xff", "[\"\xff\"]", "12345678901234567890", "[1]\n\n", "[1]]" };
    docs.push_back(std::string("[1\0]", 4)); docs.push_back(std::string("1\0 2", 4)); docs.push_back(std::string("\"a\0b\"", 5)); docs.push_back("\"" + std::string(5000, 'x') + "\"");
    { std::string s = "["; for (int i = 0; i < 500; ++i) s += std::to_string(i) + ","; docs.push_back(s + "{}]"); }
    docs.push_back("\"" + std::string(70000, 'y') + "\"");
    docs.push_back(std::string(66000, ' ') + "[1," + std::string(132000, '\n') + "2]");
    GUARD("documents", [&] { for (auto& d : docs) { parses(d); for (size_t i = 0; i < d.size() && i < 30; ++i) parses(d.substr(0, i)); } });
    } else {
    GUARD("narrow sinks", [&] { sinks<char>(seed, deep ? 60000 : 4000, "char"); });
    GUARD("wide sinks", [&] { sinks<wchar_t>(seed + 7, deep ? 60000 : 4000, "wchar_t"); });
    GUARD("dumps", [&] {
        std::vector<json::value> vs = { nullptr, true, false, 0, -1, 1234567890123, 1.5, 1e300, 1.0 / 3, "", "text", "\x01\t\"\\", "\xc3\xa9\xf0\x9f\x98\x80", std::string("a\0b", 3), "\xff" };
        json::value a; for (auto& v : vs) a.push_back(v);
        json::value o; o["x"] = 1; o["e"] = json::value(configor::value_constant::array); o["s"] = std::string(300, 'q'); o["n"]["n"]["n"] = 2.5;
        vs.push_back(o); vs.push_back(a); a.erase(14); a.push_back(o); vs.push_back(a); vs.push_back(json::value(configor::value_constant::object));
        for (auto& v : vs) { dumps<char>(v, "char"); dumps<wchar_t>(v, "wchar_t"); }
    });
    }
    return FINISH();
}
