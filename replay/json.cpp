// bounded native cross-check of the parser (C02-C05) against an independent reader
#include "jsonref.hpp"
#include <cstring>
using namespace ref;
static bool deep = false;
static void numbers()
{
    GUARD("short numbers", [] { all(A("-+0.19eE "), 1, deep ? 7 : 5, {}, {}); }, 200);
    GUARD("numbers in arrays", [] { all(A("-0.1e+/"), 1, 5, C("["), C(",2]")); });
    GUARD("integer boundaries", [] {
        unsigned __int128 base[] = { 0, 1, (unsigned __int128)1 << 31, (unsigned __int128)1 << 32, (unsigned __int128)1 << 52, (unsigned __int128)1 << 53, (unsigned __int128)1 << 62, (unsigned __int128)1 << 63, (unsigned __int128)1 << 64, ((unsigned __int128)1 << 63) / 10, ((unsigned __int128)1 << 63) / 10 * 10, (unsigned __int128)1 << 65, (unsigned __int128)1000000000000000000ull, (unsigned __int128)1000000000000000000ull * 10, (unsigned __int128)1000000000000000000ull * 92, (unsigned __int128)1 << 100 };
        for (auto b : base) for (int d = -15; d <= 15; ++d) {
            unsigned __int128 v = b + d; if (d < 0 && b < (unsigned)-d) continue;
            std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
            for (const char* sg : { "", "-", "+" }) { check(C(sg + s)); check(C(sg + s + ".0")); check(C(sg + s + ".5")); check(C(sg + s + "e2")); check(C(sg + s + "0")); check(C(sg + s + "E-3")); check(C("[" + (sg + s) + "]")); }
        }
    });
    GUARD("random numbers", [] {
        Rng r(7);
        for (int i = 0; i < (deep ? 400000 : 60000); ++i) {
            std::string s = r(3) ? "" : (r(2) ? "-" : "+");
            int n = 1 + r(r(4) ? 6 : 25); for (int k = 0; k < n; ++k) s += (char)('0' + (k == 0 && n > 1 ? 1 + r(9) : r(10)));
            if (r(2)) { s += '.'; n = 1 + r(r(4) ? 6 : 25); for (int k = 0; k < n; ++k) s += (char)('0' + r(10)); }
            if (r(2)) { s += r(2) ? 'e' : 'E'; if (r(3)) s += r(2) ? '+' : '-'; n = 1 + r(3); for (int k = 0; k < n; ++k) s += (char)('0' + r(10)); }
            if (!r(6)) s += "x.-e, ]"[r(7)];
            if (!r(10)) s[r((unsigned)s.size())] = "x.-e+0"[r(6)];
            check(C(s));
            if (!r(4)) check(C("[" + s + ",7]"));
        }
    });
    GUARD("digits that only look like digits", [] {
        for (uint32_t c : { 0x130u, 0x131u, 0x139u, 0x660u, 0x966u, 0xFF10u, 0xFF11u, 0x10030u, 0x10031u, 0x12Eu, 0x165u, 0x145u, 0x12Du, 0x2Fu, 0x3Au, 0x10039u })
            for (const char* p : { "", "1", "-", "0", "1.", "1.5", "1e", "1e1", "1e+", "1e-" }) for (const char* q : { "", "1", " " }) { check(C(p) + cps(1, c) + C(q)); check("[" + (C(p) + cps(1, c) + C(q)) + C("]")); }
    });
    GUARD("huge exponents", [] {
        for (const char* s : { "1e400", "1e-400", "0.0e99999999999", "1e99999999999999999999", "1e4294967297", "1e4294967296", "1e-4294967297", "0.1e18446744073709551617" }) {
            ++g_cases;
            try {
                double d = configor::json::parse(std::string(s)).get<double>();
                double want = std::strtod(s, nullptr);
                if (!(d == want || (want == 0 && std::fabs(d) < 1e-300) || (std::isinf(want) && d > 1e300))) FAILMSG(std::string("parse ") + s + " gives " + std::to_string(d));
            } catch (const configor::configor_deserialization_error&) {}
        }
    });
}
static void strings()
{
    std::vector<cps> al = A("\\\"un/dD8C0a \x1f");
    al.push_back({ 0xE9 }); al.push_back({ 0x1F600 });
    GUARD("short literals", [=] { all(al, 0, deep ? 5 : 4, C("\""), C("\"")); }, 250);
    GUARD("unclosed literals", [=] { all(al, 0, 3, C("\""), {}); });
    GUARD("single characters", [] {
        for (uint32_t c = 0; c < 0x110000; c += (c < 0x3000 ? 1 : 37)) {
            if (c >= 0xD800 && c < 0xE000) continue;
            check("\"a" + cps(1, c) + C("b\""));
            if (c < 0x3000) { check("\"\\" + cps(1, c) + C("\"")); check("\"\\u00" + cps(1, c) + C("1\"")); }
        }
    }, 120);
    GUARD("unicode escapes", [] {
        char b[64];
        for (unsigned u = 0; u < 0x10000; ++u) {
            bool lone = u >= 0xD800 && u < 0xE000;
            if (u >= 0xDC00 && u < 0xE000) continue;     // a lone trail surrogate is not specified
            std::snprintf(b, sizeof b, u & 1 ? "\"\\u%04x\"" : "\"\\u%04X\"", u); check(C(b));
            if (!(u % 7) || lone) { std::snprintf(b, sizeof b, "[\"x\\u%04xy\", 1]", u); check(C(b)); }
        }
        for (unsigned a = 0xD800; a < 0xDC00; a += 7) for (unsigned t = 0xDBF0; t < 0xE010; t += 5) { std::snprintf(b, sizeof b, "\"\\u%04X\\u%04x\"", a, t); check(C(b)); }
        for (unsigned a : { 0xD800u, 0xDBFFu, 0xD83Du }) for (const char* q : { "", "x", "\\n", "\\u", "\\u0041", "\\uD800", "\\udc0", "\\uDC00", "\\uDFFFz", "\\xDC00", "/uDC00", "\\\\uDC00", "\\uE000", "\\uDBFF" }) {
            std::snprintf(b, sizeof b, "\"\\u%04x%s\"", a, q); check(C(b));
        }
        for (const char* q : { "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\u12 4", "\\u-123", "\\u+123", "\\u0x12", "\\U0041", "\\u1:34", "\\u@123", "\\uG000", "\\u`123", "\\u123/" }) { check("\"" + C(q) + C("\"")); check("\"" + C(q) + C("0\"")); }
    }, 120);
    GUARD("random literals", [] {
        Rng r(11);
        for (int i = 0; i < (deep ? 300000 : 50000); ++i) {
            cps d = C("[\"");
            int n = r(r(8) ? 8 : 300);
            for (int k = 0; k < n; ++k) {
                switch (r(9)) {
                case 0: d = d + C(std::string("\\") + "\"\\/bfnrtu"[r(9)]); break;
                case 1: { char b[32]; std::snprintf(b, sizeof b, r(2) ? "\\u%04x" : "\\u%04X", r(0xD800)); d = d + C(b); break; }
                case 2: { char b[32]; std::snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + r(0x400), 0xDC00 + r(0x400)); d = d + C(b); break; }
                case 3: d.push_back(0xE000 + r(0x1000)); break;
                case 4: d.push_back(0x10000 + r(0x100000)); break;
                case 5: d.push_back(0x80 + r(0x700)); break;
                default: d.push_back(0x20 + r(95)); break;
                }
            }
            d = d + C("\",\"z\"]");
            if (!r(10)) d.resize(r((unsigned)d.size()));
            if (!r(20)) d[r((unsigned)d.size() + (d.empty() ? 1 : 0)) % (d.empty() ? 1 : d.size())] = r(0x30);
            check(d);
        }
    }, 120);
}
static void tokens()
{
    GUARD("comments", [] { all(A("/* \n1"), 1, deep ? 8 : 6, {}, {}); }, 250);
    GUARD("comments before a value", [] { all(A("/*\n\rx"), 0, deep ? 8 : 6, {}, C("\n[]")); }, 250);
    GUARD("comments inside a value", [] { all(A("/* \n\t"), 0, 5, C("[1"), C(",2]")); }, 100);
    GUARD("comments between members", [] { all(A("/* \r"), 0, 5, C("{\"a\""), C(":1}")); }, 100);
    GUARD("comments after a value", [] { all(A("/* \n"), 0, 6, C("{}"), {}); }, 100);
    GUARD("words", [] {
        for (const char* w : { "true", "false", "null" }) {
            std::string s = w;
            for (size_t n = 0; n <= s.size(); ++n) for (const char* q : { "", " ", ",", "]", "x", "e", "l", "1", "\"" }) { check(C(s.substr(0, n) + q)); check(C("[" + s.substr(0, n) + q)); check(C("[" + s.substr(0, n) + q + "]")); check(C("[1," + s.substr(0, n) + q + ",2]")); }
            for (size_t n = 0; n < s.size(); ++n) for (unsigned c = 0; c < 0x500; ++c) { cps d = C(s); d[n] = c; check(d); if (c < 0x180) check("[" + d + C("]")); }
            for (size_t n = 0; n < s.size(); ++n) for (uint32_t k : { 0x10000u, 0x100000u, 0x8000u, 0x400u, 0x200u }) { cps d = C(s); d[n] += k; check(d); check("[" + d + C("]")); }
        }
    });
    GUARD("single characters as tokens", [] {
        for (uint32_t c = 0; c < 0x3000; ++c) { check({ c }); check("[" + cps(1, c) + C("]")); check("[1" + cps(1, c) + C("2]")); check("1" + cps(1, c)); check(cps(1, c) + C("1")); }
        for (uint32_t b : { '[', ']', '{', '}', ':', ',', ' ', '\t', '\n', '\r', '/', '*', '"', '0', '5', '-' }) for (uint32_t k : { 0x100u, 0x200u, 0x10000u, 0x100000u }) { check({ b + k }); check("[" + cps(1, b + k) + C("]")); check("[1" + cps(1, b + k) + C("2]")); check(cps(1, b + k) + C("1")); }
    });
    GUARD("long comments and white space", [] {
        for (int n : { 10, 1000, 20000 }) {
            std::string st(n, '*'), sp(n, ' '), nl(n, '\n');
            for (const std::string& x : { "/*" + st + "*/", "/*" + st + "/", "/*" + st, "/*" + sp + "*/", "//" + st + "\n", "//" + st, sp + nl + sp, "/*" + st + " " + st + "/" }) { check(C(x + "1")); check(C("1" + x)); check(C("[1" + x + ",2]")); check(C(x)); }
        }
        std::string many; for (int i = 0; i < 300; ++i) many += i % 3 == 0 ? "/* a */" : i % 3 == 1 ? " // b\n" : "\t\r\n";
        check(C(many + "[" + many + "1" + many + "," + many + "2" + many + "]" + many));
    });
}
static void documents()
{
    std::vector<cps> tk;
    for (const char* t : { "[", "]", "{", "}", ":", ",", "1", "\"a\"", "\"b\"", "null" }) tk.push_back(C(t));
    GUARD("token sequences", [=] { all(tk, 1, deep ? 6 : 5, {}, {}); }, 300);
    GUARD("token sequences in an array", [=] { all(tk, 1, 4, C("["), C("]")); }, 100);
    GUARD("token sequences in an object", [=] { g_inst = 3; all(tk, 1, deep ? 5 : 4, C("{\"a\":1,"), C("}")); }, 100);
    GUARD("object members", [=] {
        std::vector<cps> m;
        for (const char* t : { "\"a\":1", "\"a\":2", "\"b\":[]", "\"\":{}", ",", "\"c\":{\"a\":3}", "\"a\":[4]", ",," }) m.push_back(C(t));
        all(m, 0, 5, C("{"), C("}"));
    }, 100);
    GUARD("random documents", [] {
        Rng r(5);
        for (int i = 0; i < (deep ? 200000 : 40000); ++i) {
            std::string d;
            std::function<void(int)> val = [&](int k) {
                static const char* ws[] = { "", "", "", " ", "\n", "/**/", "//x\n" };
                d += ws[r(7)];
                switch (r(k > 0 ? 9 : 6)) {
                case 0: d += "true"; break; case 1: d += "false"; break; case 2: d += "null"; break;
                case 3: d += std::to_string((int)r(100000) - 50000); break;
                case 4: d += std::to_string((int)r(1000)) + ".25"; break;
                case 5: d += "\"s" + std::to_string(r(100)) + "\""; break;
                case 6: case 7: { d += "["; int n = r(5); for (int j = 0; j < n; ++j) { val(k - 1); if (j + 1 < n || !r(5)) d += ","; } d += "]"; break; }
                default: { d += "{"; int n = r(5); for (int j = 0; j < n; ++j) { d += "\"" + std::string(1, (char)('a' + r(5))) + "\"" + ws[r(7)] + ":"; val(k - 1); if (j + 1 < n || !r(5)) d += ","; } d += "}"; }
                }
                d += ws[r(7)];
            };
            val(5);
            if (r(2)) check(C(d));
            else {
                for (unsigned k = 1 + r(2); k && !d.empty(); --k) {
                    unsigned p = r((unsigned)d.size());
                    switch (r(3)) { case 0: d.erase(p, 1); break; case 1: d.insert(p, 1, "[]{},:\"1 tx"[r(11)]); break; default: d[p] = "[]{},:\"1 tx"[r(11)]; }
                }
                check(C(d));
            }
        }
    }, 200);
    GUARD("nesting", [] {
        for (int n : { 1, 2, 3, 10, 100, 1000, 3000 }) {
            check(C(std::string(n, '[') + std::string(n, ']')));
            check(C(std::string(n, '[') + "1" + std::string(n, ']')));
            check(C(std::string(n, '[') + std::string(n - 1, ']')));
            check(C(std::string(n, '[') + std::string(n + 1, ']')));
            std::string o; for (int i = 0; i < n; ++i) o += "{\"k\":"; check(C(o + "2" + std::string(n, '}'))); check(C(o + "2" + std::string(n - 1, '}')));
            std::string x; for (int i = 0; i < n; ++i) x += "1,"; check(C("[" + x + "2]")); check(C("[" + x + "]"));
            std::string y; for (int i = 0; i < n; ++i) y += "\"k" + std::to_string(i) + "\":" + std::to_string(i) + ","; check(C("{" + y + "}")); check(C("{" + y + "\"k0\":9}"));
        }
    });
}
int main(int argc, char** argv)
{
    std::string what = argc > 1 ? argv[1] : "all";
    for (int i = 2; i < argc; ++i) {
        std::string h = argv[i];
        if (h == "thorough") deep = true;
        if (h.compare(0, 3, "cp:")) continue;
        cps c; const char* p = h.c_str() + 3;
        while (*p) { c.push_back((uint32_t)std::strtoul(p, (char**)&p, 16)); if (*p == ',') ++p; }
        bool ok = true; for (auto x : c) if (x > 0x10FFFF || (x >= 0xD800 && x < 0xE000)) ok = false;
        if (!ok) continue;
        GUARD("hint", [&] {
            for (size_t n = 1; n <= c.size(); ++n) {
                cps d(c.begin(), c.begin() + n);
                for (const char* pre : { "", "\"", "[", "[1,", "{\"a\":", "/", "/*", "//", "1", "\"\\", "1." }) for (const char* post : { "", "\"", "]", "1", "}", "*/1", "\n1", " ", "\"]" }) check(C(pre) + d + C(post));
            }
        });
    }
    if (what == "C03" || what == "all") numbers();
    if (what == "C02" || what == "all") strings();
    if (what == "C04" || what == "all") tokens();
    if (what == "C05" || what == "all") documents();
    return FINISH();
}
