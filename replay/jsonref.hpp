// an independent reader of the JSON dialect the properties describe, over code points
#pragma once
#include "common.hpp"
#include <configor/json.hpp>
#include <cmath>
#include <cstring>
#include <map>
namespace ref {
typedef std::vector<uint32_t> cps;
struct Err {};
struct V { int t = 0; bool b = false; long long i = 0; long double f = 0; bool fspec = true; cps s; std::vector<V> a; std::map<cps, V> o; };  // t: 0 null 1 bool 2 int 3 float 4 string 5 array 6 object
enum T { END, BA, EA, BO, EO, COLON, COMMA, TRUE_, FALSE_, NULL_, STR, INT, FLT };
struct Lexer {
    const cps& c; size_t p = 0; cps s; long long iv = 0; long double fv = 0; bool fspec = true;
    explicit Lexer(const cps& x) : c(x) {}
    uint32_t at(size_t i) const { return i < c.size() ? c[i] : 0; }
    static bool dig(uint32_t x) { return x >= '0' && x <= '9'; }
    static int hex(uint32_t x) { if (dig(x)) return x - '0'; if (x >= 'a' && x <= 'f') return x - 'a' + 10; if (x >= 'A' && x <= 'F') return x - 'A' + 10; return -1; }
    void skip()
    {
        for (;;) {
            uint32_t x = at(p);
            if (p < c.size() && (x == ' ' || x == '\t' || x == '\n' || x == '\r')) { ++p; continue; }
            if (x != '/') return;
            if (at(p + 1) == '/') { p += 2; while (p < c.size() && c[p] != '\n' && c[p] != '\r') ++p; }
            else if (at(p + 1) == '*') {
                size_t q = p + 2;
                while (q + 1 < c.size() && !(c[q] == '*' && c[q + 1] == '/')) ++q;
                if (q + 1 >= c.size()) throw Err();
                p = q + 2;
            } else throw Err();
        }
    }
    T word(const char* w, T t) { for (; *w; ++w, ++p) if (at(p) != (uint32_t)*w) throw Err(); return t; }
    unsigned hex4() { unsigned v = 0; for (int i = 0; i < 4; ++i, ++p) { int h = hex(at(p)); if (h < 0) throw Err(); v = v * 16 + h; } return v; }
    T str()
    {
        s.clear(); ++p;
        for (;; ) {
            if (p >= c.size()) throw Err();
            uint32_t x = c[p++];
            if (x == '"') return STR;
            if (x < 0x20) throw Err();
            if (x != '\\') { s.push_back(x); continue; }
            x = at(p++);
            static const char* from = "\"\\/bfnrt"; static const char* to = "\"\\/\b\f\n\r\t";
            const char* q = x && x < 128 ? strchr(from, (int)x) : nullptr;
            if (q) { s.push_back((unsigned char)to[q - from]); continue; }
            if (x != 'u') throw Err();
            unsigned u = hex4();
            if (u >= 0xD800 && u <= 0xDBFF) {
                if (at(p) != '\\' || at(p + 1) != 'u') throw Err();
                p += 2;
                unsigned v = hex4();
                if (v < 0xDC00 || v > 0xDFFF) throw Err();
                u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
            }
            s.push_back(u);
        }
    }
    T num()
    {
        bool neg = false; fspec = true;
        if (at(p) == '-' || at(p) == '+') { neg = at(p) == '-'; ++p; }
        if (!dig(at(p))) throw Err();
        std::string txt;
        bool lone0 = at(p) == '0';
        if (lone0) { txt = "0"; ++p; }
        else while (dig(at(p))) txt += (char)at(p++);
        bool fl = false; std::string ip = txt;
        if (at(p) == '.') {
            fl = true; ++p; txt += '.';
            if (!dig(at(p))) throw Err();
            while (dig(at(p))) txt += (char)at(p++);
        } else if (lone0 && (at(p) == 'e' || at(p) == 'E')) throw Err();
        if (at(p) == 'e' || at(p) == 'E') {
            fl = true; ++p; txt += 'e';
            bool sg = false;
            if (at(p) == '+' || at(p) == '-') { sg = true; txt += (char)at(p++); }
            if (!dig(at(p)) || (!sg && at(p) == '0')) throw Err();
            std::string e;
            while (dig(at(p))) e += (char)at(p++);
            size_t z = e.find_first_not_of('0');
            if (z != std::string::npos && e.size() - z > 3) fspec = false;
            txt += e;
        }
        if (fl) { fv = strtold(txt.c_str(), nullptr); if (neg) fv = -fv; return FLT; }
        unsigned __int128 m = 0;
        for (char d : ip) { m = m * 10 + (d - '0'); if (m > ((unsigned __int128)1 << 63)) throw Err(); }
        if (!neg && m > (((unsigned __int128)1 << 63) - 1)) throw Err();
        iv = neg ? (long long)(0 - (unsigned long long)m) : (long long)m;
        return INT;
    }
    T next()
    {
        skip();
        if (p >= c.size() || c[p] == 0) return END;   // a null character outside a string ends the input
        switch (c[p]) {
        case '[': ++p; return BA;
        case ']': ++p; return EA;
        case '{': ++p; return BO;
        case '}': ++p; return EO;
        case ':': ++p; return COLON;
        case ',': ++p; return COMMA;
        case 't': return word("true", TRUE_);
        case 'f': return word("false", FALSE_);
        case 'n': return word("null", NULL_);
        case '"': return str();
        case '-': case '+': return num();
        default: if (dig(c[p])) return num(); throw Err();
        }
    }
};
struct Parser {
    Lexer l; explicit Parser(const cps& c) : l(c) {}
    V value(T t)
    {
        V v;
        switch (t) {
        case NULL_: return v;
        case TRUE_: v.t = 1; v.b = true; return v;
        case FALSE_: v.t = 1; return v;
        case INT: v.t = 2; v.i = l.iv; return v;
        case FLT: v.t = 3; v.f = l.fv; v.fspec = l.fspec; return v;
        case STR: v.t = 4; v.s = l.s; return v;
        case BA:
            v.t = 5;
            for (;;) {
                t = l.next();
                if (t == EA) return v;
                v.a.push_back(value(t));
                t = l.next();
                if (t == EA) return v;
                if (t != COMMA) throw Err();
            }
        case BO:
            v.t = 6;
            for (;;) {
                t = l.next();
                if (t == EO) return v;
                if (t != STR) throw Err();
                cps k = l.s;
                if (l.next() != COLON) throw Err();
                V w = value(l.next());
                v.o.insert(std::make_pair(k, w));
                t = l.next();
                if (t == EO) return v;
                if (t != COMMA) throw Err();
            }
        default: throw Err();
        }
    }
    V document() { V v = value(l.next()); if (l.next() != END) throw Err(); return v; }
};
inline void utf8(std::string& o, uint32_t c)
{
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
template <class S> struct Txt;
template <> struct Txt<std::string> { static std::string mk(const cps& c) { std::string o; for (auto x : c) utf8(o, x); return o; } };
template <> struct Txt<std::wstring> { static std::wstring mk(const cps& c) { return std::wstring(c.begin(), c.end()); } };
inline cps C(const std::string& s) { return cps(s.begin(), s.end()); }
inline cps operator+(cps a, const cps& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline cps operator+(cps a, const std::string& b) { return a + C(b); }
inline cps operator+(const std::string& a, const cps& b) { return C(a) + b; }

inline bool closef(long double want, double got, bool spec)
{
    if (!spec) return true;
    if (want == 0) return got == 0;
    long double a = fabsl(want);
    if (a > 1e290L || a < 1e-290L) return true;
    return fabsl(want - (long double)got) <= 1e-11L * a;
}
template <class J> std::string diff(const V& v, const J& j)
{
    typedef typename J::string_type S;
    switch (v.t) {
    case 0: return j.is_null() ? "" : "not null";
    case 1: return j.is_bool() && j.template get<bool>() == v.b ? "" : "wrong boolean";
    case 2: return j.is_integer() && j.template get<int64_t>() == v.i ? "" : "wrong integer, want " + std::to_string(v.i);
    case 3: return j.is_floating() && closef(v.f, j.template get<double>(), v.fspec) ? "" : "wrong float, want " + std::to_string((double)v.f) + (j.is_floating() ? " got " + std::to_string(j.template get<double>()) : " got no float");
    case 4: return j.is_string() && j.template get<S>() == Txt<S>::mk(v.s) ? "" : "wrong string";
    case 5: {
        if (!j.is_array() || j.size() != v.a.size()) return "wrong array";
        for (size_t i = 0; i < v.a.size(); ++i) { std::string d = diff(v.a[i], j.at(i)); if (!d.empty()) return "[" + std::to_string(i) + "] " + d; }
        return "";
    }
    default: {
        if (!j.is_object() || j.size() != v.o.size()) return "wrong object";
        for (auto& kv : v.o) {
            S k = Txt<S>::mk(kv.first);
            if (!j.count(k)) return "member missing";
            std::string d = diff(kv.second, j.at(k));
            if (!d.empty()) return "." + d;
        }
        return "";
    }
    }
}
template <class CFG, class SRC> void check1(const char* inst, const cps& doc, const V* want)
{
    typedef typename CFG::value J;
    typedef std::basic_string<SRC> S;
    ++g_cases;
    S text = Txt<S>::mk(doc);
    std::string d;
    try {
        J j = CFG::template parse<SRC>(text);
        if (!want) d = "accepted"; else d = diff(*want, j);
    }
    catch (const configor::configor_deserialization_error& e) { if (want) d = std::string("rejected: ") + e.what(); }
    catch (const std::exception& e) { d = std::string("raised another exception: ") + e.what(); }
    catch (...) { d = "raised an unknown exception"; }
    if (!d.empty()) FAILMSG(std::string(inst) + " parse " + SHOW(doc) + ": " + d + (want ? "" : " (the document is malformed)"));
}
static int g_inst = 7;
inline void check(const cps& doc)
{
    V v; bool ok = true;
    try { v = Parser(doc).document(); } catch (const Err&) { ok = false; }
    if (g_inst & 1) check1<configor::json, char>("json<char>", doc, ok ? &v : nullptr);
    if (g_inst & 2) check1<configor::wjson, wchar_t>("wjson<wchar_t>", doc, ok ? &v : nullptr);
    if (g_inst & 4) check1<configor::json, wchar_t>("json<wchar_t>", doc, ok ? &v : nullptr);
}
// all strings over an alphabet with length lo..hi, wrapped
inline void all(const std::vector<cps>& al, int lo, int hi, const cps& pre, const cps& post)
{
    for (int n = lo; n <= hi; ++n) {
        std::vector<int> ix(n, 0);
        for (;;) {
            cps d = pre;
            for (int i : ix) d.insert(d.end(), al[i].begin(), al[i].end());
            d.insert(d.end(), post.begin(), post.end());
            check(d);
            int k = n - 1;
            while (k >= 0 && ++ix[k] == (int)al.size()) ix[k--] = 0;
            if (k < 0) break;
        }
    }
}
inline std::vector<cps> A(const std::string& s) { std::vector<cps> r; for (char c : s) r.push_back(cps(1, (unsigned char)c)); return r; }
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 2654435761u + 88172645463325252ull) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } unsigned operator()(unsigned n) { return (unsigned)(next() >> 20) % n; } };
}
