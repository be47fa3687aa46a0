// bounded native cross-check of C10-C13: every operation on every pair of sample values against an independent shadow model; live allocations counted
#include "common.hpp"
#include <configor/json.hpp>
#include <cmath>
#include <cstring>
#include <map>
#include <new>
#include <typeinfo>
static long g_live = 0;
void* operator new(std::size_t n) { if (n > (1ull << 32)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void operator delete(void* p) noexcept { if (p) { --g_live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --g_live; std::free(p); } }
using namespace configor;
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {} uint32_t operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 32); } };
static const char* KIND[] = { "null", "boolean", "integer", "floating", "string", "array", "object" };
enum { NUL, BOO, INT, FLT, STR, ARR, OBJ };
static const value_constant::type TY[] = { value_constant::null, value_constant::boolean, value_constant::integer, value_constant::floating, value_constant::string, value_constant::array, value_constant::object };

template <class V> struct Test
{
    using S = typename V::string_type; using C = typename V::char_type; using A = typename V::array_type; using O = typename V::object_type;
    using I = typename V::integer_type; using F = typename V::float_type;
    struct M
    {
        int k = NUL; bool b = false; I i = 0; F f = 0; S s; std::vector<M> a; std::map<S, M> o;
        static M B(bool b) { M m; m.k = BOO; m.b = b; return m; }
        static M N(I i) { M m; m.k = INT; m.i = i; return m; }
        static M D(F f) { M m; m.k = FLT; m.f = f; return m; }
        static M T(S s) { M m; m.k = STR; m.s = s; return m; }
        static M AR(std::vector<M> a) { M m; m.k = ARR; m.a = a; return m; }
        static M OB(std::map<S, M> o) { M m; m.k = OBJ; m.o = o; return m; }
        static M Z(int k) { M m; m.k = k; return m; }
    };
    static S W(const char* c, size_t n) { return S(c, c + n); }
    static S W(const char* c) { return W(c, std::strlen(c)); }
    static std::string show(const M& m, int d = 0)
    {
        switch (m.k) {
        case BOO: return m.b ? "true" : "false";
        case INT: return std::to_string(m.i);
        case FLT: { char b[64]; std::snprintf(b, 64, "%.17gf", m.f); return b; }
        case STR: return SHOW(m.s);
        case ARR: { std::string r = "["; for (auto& e : m.a) { r += show(e, d + 1) + ","; if (r.size() > 200) { r += "..."; break; } } return r + "]"; }
        case OBJ: { std::string r = "{"; for (auto& e : m.o) { r += SHOW(e.first) + ":" + show(e.second, d + 1) + ","; if (r.size() > 200) { r += "..."; break; } } return r + "}"; }
        default: return "null";
        }
    }
    static void build(V& v, const M& m)      // v is null
    {
        if (m.k == NUL) return;
        new (&v) V(TY[m.k]);
        switch (m.k) {
        case BOO: v.data().boolean = m.b; break;
        case INT: v.data().integer = m.i; break;
        case FLT: v.data().floating = m.f; break;
        case STR: *v.data().string = m.s; break;
        case ARR: v.data().vector->resize(m.a.size()); for (size_t i = 0; i < m.a.size(); ++i) build((*v.data().vector)[i], m.a[i]); break;
        case OBJ: for (auto& e : m.o) build((*v.data().object)[e.first], e.second); break;
        }
    }
    struct Val { V v; explicit Val(const M& m) { build(v, m); } };
    static bool same(const V& v, const M& m)
    {
        if (v.type() != TY[m.k]) return false;
        switch (m.k) {
        case BOO: return v.data().boolean == m.b;
        case INT: return v.data().integer == m.i;
        case FLT: return std::memcmp(&v.data().floating, &m.f, sizeof(F)) == 0 || (std::isnan(m.f) && std::isnan(v.data().floating));
        case STR: return *v.data().string == m.s;
        case ARR: {
            auto& a = *v.data().vector;
            if (a.size() != m.a.size()) return false;
            for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], m.a[i])) return false;
            return true; }
        case OBJ: {
            auto& o = *v.data().object;
            if (o.size() != m.o.size()) return false;
            auto j = m.o.begin();
            for (auto i = o.begin(); i != o.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
            return true; }
        }
        return true;
    }
    static M read(const V& v)
    {
        for (int k = 0; k < 7; ++k) if (v.type() == TY[k]) {
            M m = M::Z(k);
            switch (k) {
            case BOO: m.b = v.data().boolean; break; case INT: m.i = v.data().integer; break; case FLT: m.f = v.data().floating; break;
            case STR: m.s = *v.data().string; break;
            case ARR: for (auto& e : *v.data().vector) m.a.push_back(read(e)); break;
            case OBJ: for (auto& e : *v.data().object) m.o[e.first] = read(e.second); break;
            }
            return m;
        }
        M m; m.k = STR; m.s = W("<invalid kind>"); return m;
    }
    static void mutate(V& v)      // changes everything inside, in place
    {
        switch (v.type()) {
        case value_constant::boolean: v.data().boolean = !v.data().boolean; break;
        case value_constant::integer: v.data().integer ^= 0x55; break;
        case value_constant::floating: v.data().floating = 12345.678; break;
        case value_constant::string: v.data().string->insert(0, 1, C('!')); break;
        case value_constant::array: for (auto& e : *v.data().vector) mutate(e); v.data().vector->push_back(V()); break;
        case value_constant::object: for (auto& e : *v.data().object) mutate(e.second); (*v.data().object)[W("mutated")]; break;
        default: break;
        }
    }
    std::vector<M> pool;
    std::vector<S> keys;
    std::string tag;
    explicit Test(const char* t) : tag(t)
    {
        auto P = [&](M m) { pool.push_back(m); };
        P(M()); P(M::B(false)); P(M::B(true));
        for (I i : { I(0), I(1), I(-1), I(2), I(127), I(128), I(200), I(255), I(256), I(-129), I(32768), I(65535), I(65536), I(2147483647LL), I(2147483648LL), I(4294967295LL), I(4294967296LL),
                     I(9007199254740993LL), I(std::numeric_limits<I>::max()), I(std::numeric_limits<I>::min()) }) P(M::N(i));
        for (F f : { F(0.0), F(-0.0), F(1.0), F(-1.0), F(1.5), F(0.1), F(2.0), F(255.0), F(65536.0), F(2147483648.0), F(9007199254740992.0), F(9223372036854775808.0), F(-9223372036854775808.0), F(1e300), F(5e-324),
                     F(INFINITY), F(-INFINITY), F(NAN) }) P(M::D(f));
        for (auto s : { W(""), W("a"), W("ab"), W("b"), W("a\0b", 3), W("\0", 1), W("0123456789abcdef0123456789abcdef"), W("0"), W("null"), W("true") }) P(M::T(s));
        P(M::T(S(1, C(0xe9)))); P(M::T(S(3, C(0x7f))));
        P(M::AR({})); P(M::AR({ M() })); P(M::AR({ M::N(1) })); P(M::AR({ M::D(1.0) })); P(M::AR({ M::N(1), M::N(2), M::N(3) })); P(M::AR({ M::N(1), M::N(2) })); P(M::AR({ M::N(1), M::N(3) })); P(M::AR({ M::N(2) }));
        P(M::AR({ M::T(W("a")) })); P(M::AR({ M::AR({}), M::OB({}) })); P(M::AR({ M::D(NAN) }));
        P(M::AR({ M::T(W("x")), M::B(true), M::AR({ M::N(1), M::AR({ M::T(W("deep text deep text deep")) }) }), M::OB({ { W("k"), M::N(1) } }) }));
        { std::vector<M> l; for (int i = 0; i < 20; ++i) l.push_back(i % 3 ? M::N(i) : M::T(W("element text element text"))); P(M::AR(l)); }
        P(M::OB({})); P(M::OB({ { W("a"), M::N(1) } })); P(M::OB({ { W("a"), M::N(2) } })); P(M::OB({ { W("b"), M::N(1) } })); P(M::OB({ { W("a"), M() } })); P(M::OB({ { W(""), M::N(1) } })); P(M::OB({ { W("a"), M::N(1) }, { W("b"), M::N(2) } }));
        P(M::OB({ { W("a\0b", 3), M::T(W("t")) }, { W("zz"), M::AR({ M::N(1), M::N(2) }) }, { W("a long key a long key a long key"), M::OB({ { W("a"), M::D(0.5) } }) } }));
        { std::map<S, M> l; for (int i = 0; i < 20; ++i) l[W(("key" + std::to_string(i)).c_str())] = i % 2 ? M::N(i) : M::AR({ M::N(i) }); P(M::OB(l)); }
        keys = { W(""), W("a"), W("b"), W("zz"), W("a\0b", 3), W("key3"), W("key19"), W("a long key a long key a long key"), W("absent") };
    }
    std::string why;
    void bad(const std::string& what, const std::string& m) { FAILMSG(tag + " " + what + ": " + m); }
    void want(const std::string& what, const V& v, const M& m, const char* who) { if (!same(v, m)) bad(what, std::string(who) + " is " + show(read(v)) + ", expected " + show(m)); }
    template <class Fn> std::string err(Fn f)
    {
        try { f(); return ""; }
        catch (const configor_invalid_key&) { return "key"; }
        catch (const configor_type_error&) { return "type"; }
        catch (const configor_invalid_iterator&) { return "iter"; }
        catch (const std::out_of_range&) { return "range"; }
        catch (const std::exception& e) { return std::string("other ") + typeid(e).name(); }
        catch (...) { return "unknown"; }
    }
    template <class Fn> void bal(const std::string& what, Fn f)      // no leak over a scope
    {
        ++g_cases;
        long l = g_live;
        { f(); }
        if (g_live != l) bad(what, std::to_string(g_live - l) + " allocations not released");
    }

    // ---------------------------------------------------------------- C10
    void c10()
    {
        for (auto& m : pool) {
            std::string n = show(m);
            bal("destroy " + n, [&] { Val v(m); want("build", v.v, m, "it"); });
            bal("copy of " + n, [&] { Val v(m); V c(v.v); want("copy of " + n, c, m, "copy"); want("copy of " + n, v.v, m, "original"); mutate(c); want("changing the copy of " + n, v.v, m, "original"); M c2 = read(c); mutate(v.v); want("changing the original of " + n, c, c2, "copy"); });
            bal("move of " + n, [&] { Val v(m); V c(std::move(v.v)); want("move of " + n, c, m, "target"); want("move of " + n, v.v, M(), "source"); v.v = c; want("reuse of a moved " + n, v.v, m, "source"); });
            bal("self assignment of " + n, [&] { Val v(m); V& r = v.v; V& q = v.v = r; want("self assignment of " + n, v.v, m, "it"); if (&q != &r) bad("assignment", "wrong reference returned"); });
            bal("self move of " + n, [&] { Val v(m); V& r = v.v; v.v = std::move(r); want("self move of " + n, v.v, m, "it"); });
            bal("self swap of " + n, [&] { Val v(m); v.v.swap(v.v); want("self swap of " + n, v.v, m, "it"); });
            for (int k = 0; k < 7; ++k) bal(n + " = kind " + KIND[k], [&] { Val v(m); v.v = TY[k]; want(n + " = kind " + KIND[k], v.v, M::Z(k), "it"); });
            for (auto& m2 : pool) {
                std::string p = n + " and " + show(m2);
                bal("assign " + p, [&] { Val v(m), w(m2); V& r = v.v = w.v; want("assign " + p, v.v, m2, "target"); want("assign " + p, w.v, m2, "source"); if (&r != &v.v) bad("assign " + p, "wrong reference"); mutate(v.v); want("assign, change " + p, w.v, m2, "source"); });
                bal("move assign " + p, [&] { Val v(m), w(m2); v.v = std::move(w.v); want("move assign " + p, v.v, m2, "target"); want("move assign " + p, w.v, M(), "source"); });
                bal("swap " + p, [&] { Val v(m), w(m2); v.v.swap(w.v); want("swap " + p, v.v, m2, "first"); want("swap " + p, w.v, m, "second"); });
            }
            if (m.k == ARR) for (size_t i = 0; i < m.a.size(); ++i) {
                bal("assign element to its array " + n, [&] { Val v(m); v.v = v.v[i]; want("assign element to its array " + n, v.v, m.a[i], "it"); });
                bal("move element to its array " + n, [&] { Val v(m); v.v = std::move(v.v[i]); want("move element to its array " + n, v.v, m.a[i], "it"); });
                bal("assign array to its element " + n, [&] { Val v(m); v.v[i] = v.v; M w = m; w.a[i] = m; want("assign array to its element " + n, v.v, w, "it"); });
                bal("push_back of its element " + n, [&] { Val v(m); v.v.push_back(v.v[i]); M w = m; w.a.push_back(m.a[i]); want("push_back of its element " + n, v.v, w, "it"); });
            }
            if (m.k == OBJ) for (auto& e : m.o) {
                bal("assign member to its object " + n, [&] { Val v(m); v.v = v.v[e.first]; want("assign member to its object " + n, v.v, e.second, "it"); });
                bal("assign object to its member " + n, [&] { Val v(m); v.v[e.first] = v.v; M w = m; w.o[e.first] = m; want("assign object to its member " + n, v.v, w, "it"); });
            }
        }
        // histories
        Rng r(7);
        for (int h = 0; h < 300; ++h) bal("history", [&] {
            const int K = 4;
            std::vector<V> v(K); std::vector<M> m(K);
            for (int i = 0; i < K; ++i) { m[i] = pool[r() % pool.size()]; build(v[i], m[i]); }
            std::string log;
            for (int step = 0; step < 25; ++step) {
                int a = r() % K, b = r() % K; unsigned op = r() % 10;
                log += " " + std::to_string(op) + ":" + std::to_string(a) + "," + std::to_string(b);
                if (read_size(m[a]) > 300 || read_size(m[b]) > 300) op = 6;
                switch (op) {
                case 0: v[a] = v[b]; m[a] = M(m[b]); break;
                case 1: if (a != b) { v[a] = std::move(v[b]); m[a] = m[b]; m[b] = M(); } break;
                case 2: v[a].swap(v[b]); std::swap(m[a], m[b]); break;
                case 3: { V t(v[b]); v[a] = std::move(t); m[a] = M(m[b]); break; }
                case 4: if ((m[a].k == ARR || m[a].k == NUL) && a != b) { v[a].push_back(v[b]); if (m[a].k == NUL) m[a] = M::AR({}); m[a].a.push_back(m[b]); } break;
                case 5: { size_t i = r() % 5; if ((m[a].k == ARR || m[a].k == NUL) && a != b) { v[a][i] = v[b]; if (m[a].k == NUL) m[a] = M::AR({}); if (m[a].a.size() <= i) m[a].a.resize(i + 1); m[a].a[i] = m[b]; } break; }
                case 6: v[a].clear(); m[a] = M::Z(m[a].k); break;
                case 7: { S k = keys[r() % keys.size()]; if ((m[a].k == OBJ || m[a].k == NUL) && a != b) { v[a][k] = v[b]; if (m[a].k == NUL) m[a] = M::OB({}); m[a].o[k] = m[b]; } break; }
                case 8: if (m[a].k == ARR && !m[a].a.empty()) { size_t i = r() % m[a].a.size(); v[a].erase(i); m[a].a.erase(m[a].a.begin() + i); } break;
                case 9: m[a] = pool[r() % pool.size()]; v[a] = V(); build(v[a], m[a]); break;
                }
                for (int i = 0; i < K; ++i) if (!same(v[i], m[i])) { bad("history" + log, "value " + std::to_string(i) + " is " + show(read(v[i])) + ", expected " + show(m[i])); return; }
            }
        });
    }
    static size_t read_size(const M& m) { size_t n = 1; for (auto& e : m.a) n += read_size(e); for (auto& e : m.o) n += read_size(e.second); return n; }

    // ---------------------------------------------------------------- C11
    void c11()
    {
        for (auto& m : pool) {
            std::string n = show(m);
            size_t sz = m.k == NUL ? 0 : m.k == ARR ? m.a.size() : m.k == OBJ ? m.o.size() : 1;
            { Val v(m); const V& c = v.v; ++g_cases; if (c.size() != sz) bad("size of " + n, std::to_string(c.size())); if (c.empty() != (sz == 0)) bad("empty of " + n, c.empty() ? "true" : "false"); want("size of " + n, c, m, "it"); }
            { Val v(m); ++g_cases; v.v.clear(); want("clear of " + n, v.v, M::Z(m.k), "it"); }
            for (size_t i : { size_t(0), size_t(1), sz ? sz - 1 : 0, sz, sz + 1, sz + 3, size_t(-1), size_t(-2), size_t(1) << 63, (size_t(1) << 59) }) {
                std::string w = n + " index " + std::to_string(i);
                { Val v(m); const V& c = v.v; ++g_cases; const V* p = nullptr;
                  for (int way = 0; way < 2; ++way) {
                      std::string e = err([&] { p = way ? &c[i] : &c.at(i); });
                      std::string x = m.k != ARR ? "key" : i < sz ? "" : "range";
                      if (e != x) bad((way ? "const [] of " : "at of ") + w, "error '" + e + "', expected '" + x + "'"); else if (e.empty() && p != c.data().vector->data() + i) bad("at of " + w, "wrong element");
                      want("at of " + w, c, m, "it"); } }
                { Val v(m); ++g_cases; V* p = nullptr;
                  std::string e = err([&] { p = &v.v[i]; });
                  std::string x = m.k != ARR && m.k != NUL ? "key" : i > (1u << 20) ? "range" : "";
                  if (e != x) bad("[] of " + w, "error '" + e + "', expected '" + x + "'");
                  else if (e.empty()) {
                      M q = m; q.k = ARR; if (q.a.size() <= i) q.a.resize(i + 1);
                      if (p != v.v.data().vector->data() + i) bad("[] of " + w, "wrong element");
                      want("[] of " + w, v.v, q, "it"); *p = V(I(77)); q.a[i] = M::N(77); want("[] of " + w + " = 77", v.v, q, "it"); }
                  else if (m.k != NUL) want("[] of " + w, v.v, m, "it"); }
                if (m.k != ARR || i < sz) { Val v(m); ++g_cases; std::string e = err([&] { v.v.erase(i); }); if (e != (m.k == ARR ? "" : "key")) bad("erase of " + w, "error '" + e + "'"); M q = m; if (m.k == ARR) q.a.erase(q.a.begin() + i); want("erase of " + w, v.v, q, "it"); }
            }
            for (auto& k : keys) {
                std::string w = n + " key " + SHOW(k);
                bool has = m.k == OBJ && m.o.count(k);
                { Val v(m); const V& c = v.v; ++g_cases; if (c.count(k) != (has ? 1u : 0u)) bad("count of " + w, std::to_string(c.count(k))); }
                { Val v(m); ++g_cases; size_t r = 9; std::string e = err([&] { r = v.v.erase(k); }); if (e != (m.k == OBJ ? "" : "key")) bad("erase of " + w, "error '" + e + "'"); M q = m; if (m.k == OBJ) { q.o.erase(k); if (r != (has ? 1u : 0u)) bad("erase of " + w, "result " + std::to_string(r)); } want("erase of " + w, v.v, q, "it"); }
                for (int way = 0; way < 4; ++way) {
                    if (way >= 2 && k.find(C(0)) != S::npos) continue;
                    Val v(m); const V& c = v.v; ++g_cases; const V* p = nullptr;
                    std::string e = err([&] { p = way == 0 ? &c.at(k) : way == 1 ? &c[k] : way == 2 ? &c.at(k.c_str()) : &c[k.c_str()]; });
                    std::string x = m.k != OBJ ? "key" : has ? "" : "range";
                    if (e != x) bad("at of " + w, "error '" + e + "', expected '" + x + "'"); else if (e.empty() && p != &c.data().object->find(k)->second) bad("at of " + w, "wrong member");
                    want("at of " + w, c, m, "it");
                }
                for (int way = 0; way < 2; ++way) {
                    if (way && k.find(C(0)) != S::npos) continue;
                    Val v(m); ++g_cases; V* p = nullptr;
                    std::string e = err([&] { p = way ? &v.v[k.c_str()] : &v.v[k]; });
                    if (e != (m.k == OBJ || m.k == NUL ? "" : "key")) bad("[] of " + w, "error '" + e + "'");
                    else if (e.empty()) {
                        M q = m; q.k = OBJ; q.o[k];
                        auto it = v.v.data().object->find(k);
                        if (it == v.v.data().object->end() || p != &it->second) bad("[] of " + w, "wrong member");
                        want("[] of " + w, v.v, q, "it"); *p = V(I(77)); q.o[k] = M::N(77); want("[] of " + w + " = 77", v.v, q, "it"); }
                    else want("[] of " + w, v.v, m, "it");
                }
            }
            for (auto& m2 : pool) for (int way = 0; way < 4; ++way) {
                std::string w = n + " push " + show(m2);
                Val v(m), x(m2); ++g_cases;
                std::string e = err([&] { if (way == 0) v.v.push_back(x.v); else if (way == 1) v.v.push_back(std::move(x.v)); else if (way == 2) v.v.emplace_back(x.v); else v.v.emplace_back(std::move(x.v)); });
                bool ok = m.k == ARR || m.k == NUL;
                if (e != (ok ? "" : "type")) bad(w, "error '" + e + "'");
                M q = m; if (ok) { q.k = ARR; q.a.push_back(m2); }
                want(w, v.v, q, "it");
                want(w, x.v, ok && (way & 1) ? M() : m2, "the argument");
            }
        }
    }

    // ---------------------------------------------------------------- C12
    static bool EQ(const M& a, const M& b)
    {
        if (a.k == INT && b.k == FLT) return F(a.i) == b.f;
        if (a.k == FLT && b.k == INT) return a.f == F(b.i);
        if (a.k != b.k) return false;
        switch (a.k) {
        case BOO: return a.b == b.b; case INT: return a.i == b.i; case FLT: return a.f == b.f; case STR: return a.s == b.s;
        case ARR: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!EQ(a.a[i], b.a[i])) return false; return true;
        case OBJ: { if (a.o.size() != b.o.size()) return false; auto j = b.o.begin(); for (auto& e : a.o) { if (e.first != j->first || !EQ(e.second, j->second)) return false; ++j; } return true; }
        }
        return true;
    }
    static bool LT(const M& a, const M& b)
    {
        if (a.k == INT && b.k == FLT) return F(a.i) < b.f;
        if (a.k == FLT && b.k == INT) return a.f < F(b.i);
        if (a.k != b.k) return false;
        switch (a.k) {
        case BOO: return !a.b && b.b; case INT: return a.i < b.i; case FLT: return a.f < b.f; case STR: return a.s.compare(b.s) < 0;
        case ARR: for (size_t i = 0; i < a.a.size(); ++i) { if (i >= b.a.size()) return false; if (LT(a.a[i], b.a[i])) return true; if (LT(b.a[i], a.a[i])) return false; } return a.a.size() < b.a.size();
        case OBJ: {
            auto j = b.o.begin();
            for (auto& e : a.o) {
                if (j == b.o.end()) return false;
                if (e.first < j->first) return true; if (j->first < e.first) return false;
                if (LT(e.second, j->second)) return true; if (LT(j->second, e.second)) return false;
                ++j;
            }
            return j != b.o.end(); }
        }
        return false;
    }
    void cmp(const M& a, const M& b, bool self = false)
    {
        Val x(a), y0(b); V& y = self ? x.v : y0.v; ++g_cases;
        std::string w = show(a) + " and " + (self ? "itself" : show(b));
        if ((x.v == y) != EQ(a, b)) bad("== of " + w, "wrong");
        if ((x.v != y) != !EQ(a, b)) bad("!= of " + w, "wrong");
        if ((x.v < y) != LT(a, b)) bad("< of " + w, "wrong");
        if ((x.v > y) != LT(b, a)) bad("> of " + w, "wrong");
        if ((x.v <= y) != !LT(b, a)) bad("<= of " + w, "wrong");
        if ((x.v >= y) != !LT(a, b)) bad(">= of " + w, "wrong");
    }
    template <class T> void cmps(const M& a, T t, const M& b, const char* tn)
    {
        Val x(a); ++g_cases;
        std::string w = show(a) + " and " + tn + " " + show(b);
        if ((x.v == t) != EQ(a, b) || (t == x.v) != EQ(a, b)) bad("== of " + w, "wrong");
        if ((x.v != t) != !EQ(a, b) || (t != x.v) != !EQ(a, b)) bad("!= of " + w, "wrong");
        if ((x.v < t) != LT(a, b) || (t > x.v) != LT(a, b)) bad("< of " + w, "wrong");
        if ((x.v > t) != LT(b, a) || (t < x.v) != LT(b, a)) bad("> of " + w, "wrong");
        if ((x.v <= t) != !LT(b, a) || (t >= x.v) != !LT(b, a)) bad("<= of " + w, "wrong");
        if ((x.v >= t) != !LT(a, b) || (t <= x.v) != !LT(a, b)) bad(">= of " + w, "wrong");
    }
    M random(Rng& r, int d)
    {
        if (d == 0 || r() % 3) return pool[r() % pool.size()];
        if (r() % 2) { std::vector<M> a; for (unsigned i = r() % 4; i--;) a.push_back(random(r, d - 1)); return M::AR(a); }
        std::map<S, M> o; for (unsigned i = r() % 4; i--;) o[keys[r() % keys.size()]] = random(r, d - 1); return M::OB(o);
    }
    void c12()
    {
        for (auto& a : pool) {
            cmp(a, a, true);
            for (auto& b : pool) { cmp(a, b); cmp(M::AR({ a }), M::AR({ b })); cmp(M::AR({ a, b }), M::AR({ b, a })); cmp(M::OB({ { W("k"), a } }), M::OB({ { W("k"), b } })); cmp(M::AR({ a, M::N(1) }), M::AR({ b, M::N(2) })); }
            for (int i : { 0, 1, -1, 255, 2147483647, (int)-2147483648LL }) { cmps<int>(a, i, M::N(i), "int"); cmps<unsigned>(a, (unsigned)i, M::N((I)(unsigned)i), "unsigned"); cmps<long long>(a, i * 4294967297LL, M::N(i * 4294967297LL), "long long"); }
            cmps<bool>(a, true, M::B(true), "bool"); cmps<bool>(a, false, M::B(false), "bool");
            for (double f : { 0.0, 1.0, 1.5, -1.0, 0.1, 1e300, (double)NAN, (double)INFINITY }) { cmps<double>(a, f, M::D(f), "double"); cmps<float>(a, (float)f, M::D((F)(float)f), "float"); }
        }
        Rng r(3);
        for (int i = 0; i < 4000; ++i) { M a = random(r, 3); M b = r() % 2 ? random(r, 3) : a; if (b.k == ARR && !b.a.empty() && r() % 2) b.a[r() % b.a.size()] = random(r, 1); cmp(a, b); }
    }

    // ---------------------------------------------------------------- C13
    template <class T> static M of(T t, int k) { M m = M::Z(k); if (k == BOO) m.b = (bool)t; else if (k == INT) m.i = (I)t; else m.f = (F)t; return m; }
    template <class T> static bool bits(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0 || (a != a && b != b); }
    template <class T> static T conv(V& v) { return v; }
    template <class T> void scalar(const char* tn, int k)
    {
        for (auto& m : pool) {
            std::string w = std::string("<") + tn + "> of " + show(m);
            if (k == FLT && sizeof(T) == 4 && m.k == FLT && std::isfinite(m.f) && std::fabs(m.f) > 3e38) continue;
            Val v(m); ++g_cases; T t = T(1), u = T(1), g = T(1); T x = k == BOO ? T(m.b) : k == INT ? T(m.i) : T(m.f);
            std::string e1 = err([&] { t = v.v.template get<T>(); }), e2 = err([&] { u = conv<T>(v.v); });
            bool ok = m.k == k, r = false; std::string e = ok ? "" : "type";
            if (e1 != e || e2 != e) bad("get" + w, "error '" + e1 + "' / '" + e2 + "', expected '" + e + "'");
            else if (ok && (!bits(t, x) || !bits(u, x))) bad("get" + w, "wrong result");
            std::string e3 = err([&] { r = v.v.get(g); });
            if (!e3.empty() || r != ok || !bits(g, ok ? x : T(1))) bad("get(" + std::string(tn) + "&) of " + show(m), "wrong result");
            want("get" + w, v.v, m, "it");
        }
    }
    template <class T> void make(const char* tn, T t, int k) { ++g_cases; V v(t); want(std::string("value of a ") + tn, v, of(t, k), "it"); V w; w = t; want(std::string("assigned ") + tn, w, of(t, k), "it"); }
    template <class T, class G> void held(const char* tn, int k, G at)
    {
        for (auto& m : pool) {
            Val v(m); const V& c = v.v; ++g_cases; bool ok = m.k == k; T* x = ok ? at(v.v) : nullptr; std::string w = std::string(tn) + " in " + show(m);
            const T *p[5] = { x, x, x, x, x }; std::string e = ok ? "" : "type";
            p[0] = v.v.template get<T*>(); p[1] = c.template get<const T*>(); p[2] = v.v.template get_ptr<T*>(); p[3] = c.template get_ptr<const T*>(); p[4] = v.v.template get<const T*>();
            for (auto q : p) if (q != x) bad("get pointer to " + w, "wrong pointer");
            const T* r = x;
            if (err([&] { r = &v.v.template get<T&>(); }) != e || r != x) bad("get reference to " + w, "wrong");
            if (err([&] { r = &c.template get<const T&>(); }) != e || r != x) bad("get const reference to " + w, "wrong");
            if (err([&] { r = &v.v.template get<const T&>(); }) != e || r != x) bad("get const reference of mutable " + w, "wrong");
            want("get reference to " + w, v.v, m, "it");
        }
    }
    static M whole(const S& s) { return M::T(s); }
    static M whole(const A& a) { M m = M::AR({}); for (auto& e : a) m.a.push_back(read(e)); return m; }
    static M whole(const O& a) { M m = M::OB({}); for (auto& e : a) m.o[e.first] = read(e.second); return m; }
    static S old(S*) { return W("old text"); }
    static A old(A*) { A a; a.emplace_back(); a.emplace_back(); return a; }
    static O old(O*) { O o; o[W("old")]; return o; }
    template <class T> void content(const char* tn, int k)
    {
        for (auto& m : pool) {
            Val v(m); ++g_cases; std::string w = std::string(tn) + " of " + show(m);
            bool ok = m.k == k || (m.k == NUL && k != STR); M x = ok ? m : M(); x.k = k; T t, u = old(static_cast<T*>(nullptr)); const std::string before = show(whole(u)); bool r = false; std::string e = ok ? "" : "type";
            std::string e1 = err([&] { t = v.v.template get<T>(); });
            if (e1 != e) bad("get " + w, "error '" + e1 + "', expected '" + e + "'"); else if (ok) { V z(TY[k]); if (show(whole(t)) != show(x)) bad("get " + w, "is " + show(whole(t))); }
            std::string e2 = err([&] { r = v.v.get(u); });
            if (!e2.empty() || r != ok || show(whole(u)) != (ok ? show(x) : before)) bad("get to " + w, "wrong");
            want("get " + w, v.v, m, "it");
        }
    }
    void c13()
    {
        for (auto& m : pool) {
            Val v(m); const V& c = v.v; ++g_cases; std::string n = show(m);
            bool is[] = { c.is_null(), c.is_bool(), c.is_integer(), c.is_floating(), c.is_string(), c.is_array(), c.is_object() };
            for (int k = 0; k < 7; ++k) if (is[k] != (m.k == k)) bad(std::string("is_") + KIND[k] + " of " + n, "wrong");
            if (c.is_number() != (m.k == INT || m.k == FLT)) bad("is_number of " + n, "wrong");
            if (c.type() != TY[m.k]) bad("type of " + n, "wrong");
            V w = c.template get<V>(); want("get<value> of " + n, w, m, "it");
            V z; bool r = c.get(z); if (!r) bad("get(value&) of " + n, "false"); want("get(value&) of " + n, z, m, "it");
            if (m.k == STR) {
                V s(m.s); want("value of a string " + n, s, m, "it"); S mv = m.s; V s2(std::move(mv)); want("value of a moved string " + n, s2, m, "it");
                if (m.s.find(C(0)) == S::npos) { V s3(m.s.c_str()); want("value of a C string " + n, s3, m, "it"); }
                V t; t = m.s; want("assigned string " + n, t, m, "it");
            }
            if (m.k == ARR) { A a(*c.data().vector); V s(std::move(a)); want("value of a moved array " + n, s, m, "it"); }
            if (m.k == OBJ) { O a(*c.data().object); V s(std::move(a)); want("value of a moved object " + n, s, m, "it"); }
        }
        { V v(nullptr); want("value of nullptr", v, M(), "it"); }
#define SC(T, K) scalar<T>(#T, K)
        SC(bool, BOO); SC(signed char, INT); SC(short, INT); SC(int, INT); SC(long, INT); SC(long long, INT); SC(unsigned char, INT); SC(unsigned short, INT); SC(unsigned, INT); SC(unsigned long, INT); SC(unsigned long long, INT); SC(float, FLT); SC(double, FLT);
#define MK(T, K) for (double x : { 0.0, 1.0, 2.0, 100.0, -1.0, -128.0 }) make<T>(#T, (T)(long long)x, K)
        MK(bool, BOO); MK(signed char, INT); MK(short, INT); MK(int, INT); MK(long, INT); MK(long long, INT); MK(unsigned char, INT); MK(unsigned short, INT); MK(unsigned, INT); MK(float, FLT); MK(double, FLT);
        for (double f : { 0.1, -0.0, 1e300, 5e-324, (double)INFINITY, (double)NAN }) { make<double>("double", f, FLT); }
        for (float f : { 0.1f, -0.0f, 1e30f }) make<float>("float", f, FLT);
        make<long long>("long long", std::numeric_limits<long long>::min(), INT); make<long long>("long long", std::numeric_limits<long long>::max(), INT); make<unsigned>("unsigned", 4294967295u, INT); make<unsigned long>("unsigned long", 9223372036854775807ul, INT);
        held<bool>("bool", BOO, [](V& v) { return &v.data().boolean; }); held<I>("integer", INT, [](V& v) { return &v.data().integer; }); held<F>("float", FLT, [](V& v) { return &v.data().floating; });
        held<S>("string", STR, [](V& v) { return v.data().string; }); held<A>("array", ARR, [](V& v) { return v.data().vector; }); held<O>("object", OBJ, [](V& v) { return v.data().object; });
        content<S>("string", STR); content<A>("array", ARR); content<O>("object", OBJ);
    }
    void go(const std::string& p)
    {
        GUARD(tag + " " + p, [&] { if (p == "C10") c10(); else if (p == "C11") c11(); else if (p == "C12") c12(); else c13(); }, 100);
    }
};
int main(int, char** v)
{
    Test<json::value>("json").go(v[1]);
    Test<wjson::value>("wjson").go(v[1]);
    return FINISH();
}
