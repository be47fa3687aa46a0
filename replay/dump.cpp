// bounded native cross-check of the serializer (C07, C08, C09, C19, C20) against an independent writer
#include "jsonref.hpp"
#include <locale>
#include <sstream>
#include <limits>
#include <cfloat>
using namespace ref;
static bool deep = false;
struct Opt { int step = 0; uint32_t fill = ' '; bool esc = false; int prec = 6; int ff = 0; };
static void app(cps& o, const std::string& s) { o.insert(o.end(), s.begin(), s.end()); }
static void put_hex4(cps& o, uint32_t c) { char b[16]; std::snprintf(b, sizeof b, "\\u%04X", c); app(o, std::string(b)); }
static void wstr(cps& o, const cps& s, const Opt& p)
{
    o.push_back('"');
    for (uint32_t c : s) {
        const std::string from = "\"\\\b\f\n\r\t";
        size_t k = from.find((char)c);
        if (c < 128 && k != from.npos) { o.push_back('\\'); o.push_back((unsigned char)"\"\\bfnrt"[k]); continue; }
        if (c < 0x20 || (p.esc && c >= 0x7F)) {
            if (c <= 0xFFFF) put_hex4(o, c);
            else { put_hex4(o, 0xD800 + ((c - 0x10000) >> 10)); put_hex4(o, 0xDC00 + ((c - 0x10000) & 0x3FF)); }
            continue;
        }
        o.push_back(c);
    }
    o.push_back('"');
}
static std::string wfloat(double f, const Opt& p)
{
    char b[2048];
    if (std::floor(f) == f && std::fabs(f) < 9223372036854775808.0) { std::snprintf(b, sizeof b, "%lld.0", (long long)f); return b; }
    std::snprintf(b, sizeof b, p.ff == 1 ? "%.*f" : p.ff == 2 ? "%.*e" : "%.*g", p.prec, f);
    std::string s = b;
    if (s.find_first_of(".e") == s.npos) s += ".0";
    return s;
}
static void line(cps& o, const Opt& p, int d) { if (p.step) { o.push_back('\n'); o.insert(o.end(), (size_t)p.step * d, p.fill); } }
static void write(cps& o, const V& v, const Opt& p, int d)
{
    switch (v.t) {
    case 0: app(o, std::string("null")); return;
    case 1: app(o, std::string(v.b ? "true" : "false")); return;
    case 2: app(o, std::to_string(v.i)); return;
    case 3: app(o, wfloat((double)v.f, p)); return;
    case 4: wstr(o, v.s, p); return;
    case 5: {
        o.push_back('[');
        for (size_t i = 0; i < v.a.size(); ++i) { if (i) o.push_back(','); line(o, p, d + 1); write(o, v.a[i], p, d + 1); }
        line(o, p, d); o.push_back(']');
        return;
    }
    default: {
        o.push_back('{');
        bool first = true;
        for (auto& kv : v.o) { if (!first) o.push_back(','); first = false; line(o, p, d + 1); wstr(o, kv.first, p); o.push_back(':'); if (p.step) o.push_back(p.fill); write(o, kv.second, p, d + 1); }
        line(o, p, d); o.push_back('}');
    }
    }
}
template <class J> J build(const V& v)
{
    typedef typename J::string_type S;
    switch (v.t) {
    case 0: return J(nullptr);
    case 1: return J(v.b);
    case 2: return J((int64_t)v.i);
    case 3: return J((double)v.f);
    case 4: return J(Txt<S>::mk(v.s));
    case 5: { J j(configor::value_constant::array); for (auto& e : v.a) j.push_back(build<J>(e)); return j; }
    default: { J j(configor::value_constant::object); for (auto& kv : v.o) j[Txt<S>::mk(kv.first)] = build<J>(kv.second); return j; }
    }
}
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "yes"; } };
struct WPunct : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L','; } wchar_t do_thousands_sep() const override { return L'.'; } std::string do_grouping() const override { return "\1"; } };
static std::string text_of(const cps& c) { return SHOW(c); }
static bool floats(const V& v);
static bool only_back = false;          // C20: only whether the value comes back
static V rounded(V v, const Opt& p)
{
    if (v.t == 3) v.f = std::strtod(wfloat((double)v.f, p).c_str(), nullptr);
    for (auto& e : v.a) e = rounded(e, p);
    for (auto& e : v.o) e.second = rounded(e.second, p);
    return v;
}
template <class CFG, class T> void dump1(const char* inst, const V& v, const Opt& p, bool again)
{
    typedef typename CFG::value J;
    typedef std::basic_string<T> S;
    typedef typename CFG::template serializer_type<T> Z;
    typedef typename Z::option O;
    cps want; write(want, v, p, 0);
    S w = Txt<S>::mk(want);
    J j = build<J>(v), keep = j;
    std::initializer_list<O> os = { Z::with_indent((uint8_t)p.step, (T)p.fill), Z::with_unicode_escaping(p.esc), Z::with_precision(p.prec, p.ff == 1 ? std::ios_base::fixed : p.ff == 2 ? std::ios_base::scientific : std::ios_base::fmtflags(0)) };
    ++g_cases;
    S got; std::string e;
    auto tag = [&](const char* how) { return std::string(inst) + " " + how + " step " + std::to_string(p.step) + " fill " + HEX(p.fill) + (p.esc ? " escaping" : "") + " precision " + std::to_string(p.prec) + " format " + std::to_string(p.ff) + ": "; };
    auto cmp = [&](const char* how, const S& g) {
        if (only_back) {
            J b;
            try { CFG::template parse<T>(b, g); }
            catch (const std::exception& x) { FAILMSG(tag(how) + "is rejected: " + SHOW(g) + ": " + x.what()); return; }
            std::string d = diff(rounded(v, p), b);
            if (!d.empty()) FAILMSG(tag(how) + d + " in " + SHOW(g));
        }
        else if (g != w) FAILMSG(tag(how) + "wrote " + SHOW(g) + " want " + text_of(want));
    };
    try {
        got = CFG::template dump<T>(j, os);
        cmp("dump to string", got);
        // a stream with all sorts of state
        std::basic_ostringstream<T> ss;
        std::locale loc(std::locale(std::locale::classic(), new Punct), new WPunct);
        ss.imbue(loc);
        std::ios_base::fmtflags ff = p.ff == 1 ? std::ios_base::fixed : p.ff == 2 ? std::ios_base::scientific : std::ios_base::fmtflags(0);
        std::ios_base::fmtflags fl = std::ios_base::hex | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::uppercase | std::ios_base::showpoint | std::ios_base::left | std::ios_base::boolalpha | ff;
        ss.flags(fl); ss.precision(p.prec); ss.width(p.step); ss.fill((T)p.fill);
        if (p.esc) CFG::template dump<T>(ss, j, { Z::with_unicode_escaping(true) });
        else if (g_cases & 1) CFG::template dump<T>(ss, j);
        else ss << CFG::wrap(j);
        cmp("dump to stream", ss.str());
        if (!only_back && (ss.flags() != fl || ss.precision() != p.prec || ss.width() != 0 || ss.fill() != (T)p.fill || ss.getloc() != loc || !ss.good())) FAILMSG(tag("dump to stream") + "the caller's stream was changed");
        if (!only_back && !(j == keep)) FAILMSG(tag("dump") + "changed the value");
        if (again) {
            J back = CFG::template parse<T>(got);
            std::string d = only_back ? "" : diff(v, back);
            if (!d.empty()) FAILMSG(tag("parse of dump") + d + " in " + SHOW(got));
            if (!floats(v) && CFG::template dump<T>(back, os) != got) FAILMSG(tag("dump of parse of dump") + "differs from " + SHOW(got));
            if (only_back) return;
            // from a stream with all sorts of state
            std::basic_istringstream<T> in(got);
            in.imbue(loc); in.flags(fl); in.width(3);
            J b2; CFG::template parse<T>(b2, in);
            if (!(b2 == back)) FAILMSG(tag("parse from stream") + "differs for " + SHOW(got));
            if (in.flags() != fl || in.getloc() != loc || in.width() != 3) FAILMSG(tag("parse from stream") + "the caller's stream was changed");
            std::basic_istringstream<T> in2(got);
            in2.imbue(loc); in2.flags(fl | std::ios_base::skipws);
            J b3; in2 >> CFG::wrap(b3);
            if (!(b3 == back)) FAILMSG(tag("stream >>") + "differs for " + SHOW(got));
        }
    }
    catch (const std::exception& x) { FAILMSG(tag("dump") + "raised " + x.what() + ", want " + text_of(want)); }
    catch (...) { FAILMSG(tag("dump") + "raised something, want " + text_of(want)); }
}
static bool floats(const V& v) { if (v.t == 3) return true; for (auto& e : v.a) if (floats(e)) return true; for (auto& e : v.o) if (floats(e.second)) return true; return false; }
static bool extreme(const V& v) { if (v.t == 3 && v.f != 0 && (std::fabs((double)v.f) < 1e-290 || std::fabs((double)v.f) > 1e300)) return true; for (auto& e : v.a) if (extreme(e)) return true; return false; }
static void all3(const V& v, const Opt& p, bool again = false)
{
    if (only_back) { again = true; if (p.fill != ' ' && p.fill != '\t' && p.fill != '\n' && p.fill != '\r') return; if (extreme(v)) return; }
    dump1<configor::json, char>("json<char>", v, p, again);
    if (p.fill < 0x80) dump1<configor::wjson, wchar_t>("wjson<wchar_t>", v, p, again);
    if (p.fill < 0x80) dump1<configor::json, wchar_t>("json<wchar_t>", v, p, again);
}
template <class CFG, class T> void refused1(const char* inst, const typename CFG::value& j, const char* what)
{
    ++g_cases;
    try { auto s = CFG::template dump<T>(j); FAILMSG(std::string(inst) + " dump of " + what + " wrote " + SHOW(s)); }
    catch (const configor::configor_serialization_error&) {}
    catch (const std::exception& e) { FAILMSG(std::string(inst) + " dump of " + what + " raised " + e.what()); }
    catch (...) { FAILMSG(std::string(inst) + " dump of " + what + " raised something else"); }
}
static V I(long long i) { V v; v.t = 2; v.i = i; return v; }
static V F(double f) { V v; v.t = 3; v.f = f; return v; }
static V S(const cps& s) { V v; v.t = 4; v.s = s; return v; }
static V B(bool b) { V v; v.t = 1; v.b = b; return v; }
static V AR(std::vector<V> a) { V v; v.t = 5; v.a = std::move(a); return v; }
static V O(std::map<cps, V> o) { V v; v.t = 6; v.o = std::move(o); return v; }
static uint32_t chr(Rng& r)
{
    switch (r(8)) {
    case 0: return r(0x20);
    case 1: return "\"\\/\b\f\n\r\t\x7f"[r(9)];
    case 2: return 0x80 + r(0x780);
    case 3: { uint32_t c = 0x800 + r(0xF800); return c >= 0xD800 && c < 0xE000 ? 0xFFFF : c; }
    case 4: return 0x10000 + r(0x100000);
    default: return 0x20 + r(0x5F);
    }
}
static cps rstr(Rng& r) { cps s; for (int n = r(r(3) ? 4 : 20); n > 0; --n) s.push_back(chr(r)); return s; }
static V rnd(Rng& r, int d)
{
    int k = r(d > 0 ? 10 : 6);
    switch (k) {
    case 0: return V();
    case 1: return B(r(2));
    case 2: return I((long long)(r.next() >> r(64)) * (r(2) ? 1 : -1));
    case 3: return F((r(2) ? 1 : -1) * (r(3) ? (double)r(100000) / 128 : std::ldexp((double)(r.next() >> 11), (int)r(120) - 90)));
    case 4: case 5: return S(rstr(r));
    case 6: case 7: { V v; v.t = 5; for (int n = r(4); n > 0; --n) v.a.push_back(rnd(r, d - 1)); return v; }
    default: { V v; v.t = 6; for (int n = r(4); n > 0; --n) v.o[rstr(r)] = rnd(r, d - 1); return v; }
    }
}
static void structure()
{
    GUARD("small trees", [] {
        std::vector<V> leaf = { V(), B(true), B(false), I(-7), F(0.5), S(C("a")), AR({}), O({}) };
        std::vector<V> l2 = leaf;
        for (auto& x : leaf) { l2.push_back(AR({ x })); l2.push_back(O({ { C("k"), x } })); for (auto& y : leaf) { l2.push_back(AR({ x, y })); l2.push_back(O({ { C("k"), x }, { C("j"), y } })); } }
        for (auto& x : l2) for (int st : { 0, 1, 4 }) { Opt p; p.step = st; all3(x, p); all3(AR({ x, I(1) }), p); all3(O({ { C("z"), x }, { cps(), x } }), p); }
    }, 120);
    GUARD("depths and widths", [] {
        for (int st : { 0, 1, 2, 3, 7, 63, 64, 127, 128, 129, 200, 255 }) for (uint32_t f : { (uint32_t)' ', (uint32_t)'\t', (uint32_t)'x' }) for (int d : { 0, 1, 2, 3, 4, 5, 9, 17 }) {
            Opt p; p.step = st; p.fill = f;
            V v = I(1);
            for (int i = 0; i < d; ++i) v = i & 1 ? AR({ I(2), v, AR({}) }) : O({ { C("m"), v }, { C("n"), O({}) } });
            all3(v, p);
        }
    }, 120);
    GUARD("deep nesting", [] {
        for (int d : { 40, 255, 256, 257, 300, 600 }) for (int st : { 0, 1, 2, 4 }) { Opt p; p.step = st; V v = I(1); for (int i = 0; i < d; ++i) v = i & 1 ? AR({ v }) : O({ { C("m"), v } }); all3(v, p); }
    }, 200);
    GUARD("many elements", [] {
        for (int n : { 10, 255, 256, 257, 1000, 70000 }) { Opt p; p.step = n & 1; V v; v.t = 5; V o; o.t = 6; for (int i = 0; i < n; ++i) { v.a.push_back(I(i)); o.o[C(std::to_string(i))] = I(i); } all3(v, p); all3(o, p); }
    }, 200);
    GUARD("random trees", [] {
        Rng r(3);
        for (int i = 0; i < (deep ? 30000 : 4000); ++i) { Opt p; p.step = r(2) ? 0 : r(9); p.fill = r(3) ? ' ' : '\t'; p.esc = r(2); all3(rnd(r, 4), p); }
    }, 200);
}
static void strings()
{
    GUARD("every character", [] {
        for (uint32_t c = 0; c < 0x110000; c += (c < 0x3000 ? 1 : deep ? 7 : 61)) {
            if (c >= 0xD800 && c < 0xE000) continue;
            for (int esc = 0; esc < 2; ++esc) { Opt p; p.esc = esc; all3(S({ 'a', c, 'b' }), p); if (c < 0x300) { all3(S({ c }), p); all3(O({ { { c, '1' }, V() } }), p); } }
        }
    }, 200);
    GUARD("boundaries", [] {
        std::vector<uint32_t> b = { 0, 1, 0x1F, 0x20, 0x22, 0x5C, 0x7E, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x10FC00, 0x10FFFF };
        for (uint32_t x : b) for (uint32_t y : b) for (int esc = 0; esc < 2; ++esc) { Opt p; p.esc = esc; p.step = esc; all3(S({ x, y }), p); all3(S({ x, y, x }), p); }
    });
    GUARD("long strings", [] { for (int n : { 100, 255, 256, 4096, 70000 }) { Opt p; p.esc = n & 1; Rng r(n); cps s; for (int i = 0; i < n; ++i) s.push_back(chr(r)); all3(S(s), p); all3(AR({ S(s), S(s) }), p); } });
    GUARD("random strings", [] { Rng r(11); for (int i = 0; i < (deep ? 100000 : 10000); ++i) { Opt p; p.esc = r(2); all3(S(rstr(r)), p); } }, 200);
    if (!only_back) GUARD("undecodable text", [] {
        for (std::string t : { "\xC3", "a\xE2\x82", "\xF0\x9F\x98", "ok\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF" }) {
            refused1<configor::json, char>("json<char>", configor::json::value(t), "undecodable text");
            refused1<configor::json, wchar_t>("json<wchar_t>", configor::json::value(t), "undecodable text");
            configor::json::value o; o[t] = 1; refused1<configor::json, char>("json<char>", o, "an undecodable key");
            configor::json::value a; a.push_back(1); a.push_back(configor::json::value(t)); a.push_back(2); refused1<configor::json, char>("json<char>", a, "an array with undecodable text");
        }
        for (uint32_t c : { 0x110000u, 0x7FFFFFFFu, 0xFFFFFFF0u }) for (const wchar_t* pre : { L"", L"ab" }) refused1<configor::wjson, wchar_t>("wjson<wchar_t>", configor::wjson::value(std::wstring(pre) + (wchar_t)c), "undecodable text");
    });
}
static void numbers()
{
    GUARD("integers", [] {
        Rng r(5);
        for (int b = 0; b < 64; ++b) for (int d = -3; d <= 3; ++d) for (int n = 0; n < 2; ++n) { long long x = (long long)((1ull << b) + d); all3(I(n ? (long long)(0 - (unsigned long long)x) : x), Opt()); }
        for (int i = 0; i < 4000; ++i) all3(I((long long)(r.next() >> r(64)) * (r(2) ? 1 : -1)), Opt());
        long long t = 1; for (int i = 0; i < 19; ++i, t *= 10) for (int d = -1; d <= 1; ++d) { all3(I(t + d), Opt()); all3(I(-t - d), Opt()); }
    });
    GUARD("floats", [] {
        std::vector<double> v = { 0.0, 0.5, 1.5, 0.1, 1e15, 1e16, 1e17, 1e18, 9.2e18, 9223372036854774784.0, 9223372036854775808.0, 9223372036854777856.0, 1e19, 1e20, 1e100, DBL_MAX, DBL_MIN, 5e-324, 1e-7, 123456.5, 1234567.5, 999999.5, 9999995.5, 99999.95, 0.9999996, 1e5 + 0.5, 100000.4, 1000000.4, 4503599627370496.5, 4503599627370495.5, 9007199254740993.0, 2147483648.0, 4294967296.0, 2147483647.5 };
        for (double x : v) for (double s : { 1.0, -1.0 }) for (int pr : { 0, 1, 2, 6, 7, 15, 17, 20, 30 }) for (int ff = 0; ff < 3; ++ff) { Opt p; p.prec = pr; p.ff = ff; all3(F(s * x), p); all3(AR({ F(s * x), I(1) }), p); }
        Rng r(17);
        for (int i = 0; i < (deep ? 60000 : 8000); ++i) { Opt p; p.prec = r(3) ? (int)r(18) : 6; p.ff = r(3); uint64_t u = r.next() * 0x9E3779B97F4A7C15ull; double d; std::memcpy(&d, &u, 8); if (!std::isfinite(d) || r(2)) d = std::ldexp((double)(int64_t)(r.next() >> r(40)), (int)r(80) - 60); all3(F(d), p); }
    }, 200);
    if (!only_back) GUARD("not finite", [] {
        double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
        for (double d : { inf, -inf, nan, -nan }) {
            refused1<configor::json, char>("json<char>", configor::json::value(d), "a float that is not finite");
            refused1<configor::json, wchar_t>("json<wchar_t>", configor::json::value(d), "a float that is not finite");
            refused1<configor::wjson, wchar_t>("wjson<wchar_t>", configor::wjson::value(d), "a float that is not finite");
            configor::json::value a; a.push_back(1); a.push_back(d); a.push_back(2); refused1<configor::json, char>("json<char>", a, "an array with a float that is not finite");
        }
    });
}
static void back()
{
    GUARD("dump and parse", [] {
        Rng r(23);
        for (int i = 0; i < (deep ? 30000 : 4000); ++i) {
            Opt p; p.step = r(2) ? 0 : r(9); p.fill = r(2) ? ' ' : '\t'; p.esc = r(2); p.prec = 12;
            V v = rnd(r, 4);
            all3(v, p, true);
        }
    }, 250);
    GUARD("dump and parse strings", [] { Rng r(29); for (int i = 0; i < 6000; ++i) { Opt p; p.esc = r(2); p.prec = 12; all3(S(rstr(r)), p, true); all3(O({ { rstr(r), I(1) } }), p, true); } }, 120);
}
template <class CFG, class T> void states1(const char* inst, Rng& r)
{
    typedef typename CFG::value J;
    typedef typename CFG::template serializer_type<T> Z;
    typedef std::ios_base B;
    static const B::fmtflags bits[] = { B::hex, B::oct, B::dec, B::showbase, B::showpos, B::uppercase, B::showpoint, B::left, B::right, B::internal, B::boolalpha, B::skipws, B::unitbuf, B::fixed, B::scientific };
    static const std::streamsize widths[] = { 0, 0, 0, 1, 3, 5, 64, 255, 256, 300, 65536, 2147483647, -1, -256 };
    B::fmtflags fl = B::fmtflags(0);
    for (B::fmtflags b : bits) if (r(3) == 0) fl |= b;
    B::fmtflags ff = fl & B::floatfield;
    Opt p; p.ff = ff == B::fixed ? 1 : ff == B::scientific ? 2 : 0; p.prec = (int)r(18);
    std::streamsize w = widths[r(sizeof widths / sizeof *widths)];
    p.step = w < 0 ? 0 : (int)w; if (p.step) p.fill = r(2) ? ' ' : '*';
    std::locale loc = r(2) ? std::locale(std::locale(std::locale::classic(), new Punct), new WPunct) : std::locale::classic();
    V v = r(4) ? AR({ I((long long)r.next() >> r(60)), F((double)r(1000000) / 64), ::B(true), S(C("a b")), F(1e18), F(1e-9) }) : F((double)r(100000) / 8);
    J j = build<J>(v);
    bool bad = r(4) == 0;
    if (bad) { J a(configor::value_constant::array); a.push_back(std::move(j)); a.push_back(std::numeric_limits<double>::infinity()); j = a; }
    std::basic_ostringstream<T> ss; ss.imbue(loc); ss.flags(fl); ss.precision(p.prec); ss.fill((T)p.fill); ss.width(w);
    int how = (int)r(4);
    auto tag = [&] { return std::string(inst) + " flags " + HEX((uint32_t)fl) + " width " + std::to_string(w) + " precision " + std::to_string(p.prec) + (loc == std::locale::classic() ? "" : " grouping") + " how " + std::to_string(how) + (bad ? " undumpable" : "") + ": "; };
    ++g_cases;
    bool thrown = false;
    try {
        switch (how) {
        case 0: CFG::template dump<T>(ss, j); break;
        case 1: ss << CFG::wrap(j); break;
        case 2: CFG::template dump<T>(ss, j, { Z::with_unicode_escaping(false) }); break;
        default: CFG::template dump<T>(ss, j, { Z::with_precision(p.prec, ff) }); break;
        }
    }
    catch (const configor::configor_serialization_error&) { thrown = true; }
    if (thrown != bad) FAILMSG(tag() + (bad ? "no error" : "error"));
    if (ss.flags() != fl || ss.precision() != p.prec || ss.fill() != (T)p.fill || ss.getloc() != loc || !ss.good()) FAILMSG(tag() + "the state of the caller's stream was changed");
    if (ss.width() != 0) FAILMSG(tag() + "the width is still " + std::to_string(ss.width()));
    if (!bad && w <= 255) { cps want; write(want, v, p, 0); if (ss.str() != Txt<std::basic_string<T>>::mk(want)) FAILMSG(tag() + "wrote " + SHOW(ss.str()) + " want " + text_of(want)); }
    // and back from a stream
    const char* docs[] = { "[1234567,-0.5, \"a b\" ,1e3]", "{\"k\" : 12345.25}", "\n 77 ", "-8", "[1,", "tru" };
    const char* d = docs[r(6)];
    std::basic_string<T> doc(d, d + std::strlen(d));
    J want2, got2; bool e1 = false, e2 = false;
    try { CFG::template parse<T>(want2, doc); } catch (const configor::configor_deserialization_error&) { e1 = true; }
    std::basic_istringstream<T> in(doc); in.imbue(loc); in.flags(fl); in.precision(p.prec); in.width(w); in.fill((T)p.fill);
    bool ext = r(2);
    if (ext) in.setf(B::skipws);
    B::fmtflags fl2 = in.flags();
    try { if (ext) in >> CFG::wrap(got2); else CFG::template parse<T>(got2, in); } catch (const configor::configor_deserialization_error&) { e2 = true; }
    if (e1 != e2 || (!e1 && !(want2 == got2))) FAILMSG(tag() + "parse from the stream differs for " + d);
    if (in.flags() != fl2 || in.precision() != p.prec || in.width() != w || in.fill() != (T)p.fill || in.getloc() != loc || in.fail()) FAILMSG(tag() + "parsing changed the state of the caller's stream");
}
static void states()
{
    GUARD("stream states", [] { Rng r(41); for (int i = 0; i < (deep ? 60000 : 8000); ++i) { states1<configor::json, char>("json<char>", r); states1<configor::wjson, wchar_t>("wjson<wchar_t>", r); states1<configor::json, wchar_t>("json<wchar_t>", r); } }, 200);
}
int main(int argc, char** argv)
{
    std::string w = argc > 1 ? argv[1] : "all";
    deep = argc > 2 && !std::strcmp(argv[2], "thorough");
    if (w == "C20") { only_back = true; structure(); strings(); numbers(); }
    if (w == "C08" || w == "all") structure();
    if (w == "C07" || w == "all") strings();
    if (w == "C09" || w == "all") numbers();
    if (w == "C19" || w == "C20" || w == "all") back();
    if (w == "C19") { states(); numbers(); structure(); }
    return FINISH();
}
