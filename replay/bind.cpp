// bounded native cross-check of bound user types (C18)
#include "common.hpp"
#include <configor/json.hpp>
#include <map>
#include "bindtypes.hpp"
using configor::json;
using configor::wjson;
using configor::value_constant;
template <class V, class F> static int outcome(F f) { try { f(); return 0; } catch (const std::exception&) { return 1; } catch (...) { return 2; } }
// ---- lists of every length: the fields are the longs at the start of the object
template <class N> static long* at(N& n) { return reinterpret_cast<long*>(&n); }
template <class N> static void arity(int n, bool required)
{
    using V = json::value;
    const std::string w0 = std::string(required ? "required" : "optional") + " fields: " + std::to_string(n) + ", ";
    if (sizeof(N) != sizeof(long) * (size_t)n) { FAILMSG("test types"); return; }
    N x; for (int i = 0; i < n; ++i) at(x)[i] = 100 + i;
    ++g_cases;
    V v(x);
    if (!v.is_object() || v.size() != (size_t)n) { FAILMSG(w0 + "converted to " + std::to_string(v.is_object() ? v.size() : 0) + " members"); return; }
    for (int i = 0; i < n; ++i) { std::string k = "f" + std::to_string(i + 1); if (!v.count(k) || !(v[k] == V(100 + i))) FAILMSG(w0 + "member " + k); }
    N y; for (int i = 0; i < n; ++i) at(y)[i] = -1;
    if (!v.get(y)) FAILMSG(w0 + "not converted back");
    N z = v.get<N>();
    for (int i = 0; i < n; ++i) if (at(y)[i] != 100 + i || at(z)[i] != 100 + i) FAILMSG(w0 + "field " + std::to_string(i + 1) + " is not restored");
    for (int m = 0; m < n; ++m) {
        ++g_cases;
        std::string k = "f" + std::to_string(m + 1);
        V u = v; u.erase(k);
        N t; for (int i = 0; i < n; ++i) at(t)[i] = -7;
        bool ok = u.get(t);
        if (required) { if (ok || outcome<V>([&] { u.get<N>(); }) != 1) FAILMSG(w0 + "missing " + k + " is not an error"); }
        else {
            if (!ok) FAILMSG(w0 + "missing " + k + " is an error");
            for (int i = 0; i < n; ++i) if (at(t)[i] != (i == m ? -7 : 100 + i)) FAILMSG(w0 + "without " + k + ": field " + std::to_string(i + 1));
            N d = x; at(d)[m] = 0; V dv(d); if (dv.is_object() && dv.count(k) && !(dv[k] == V(0))) FAILMSG(w0 + "default " + k);
            for (int i = 0; i < n; ++i) if (i != m && (!dv.is_object() || !dv.count("f" + std::to_string(i + 1)))) FAILMSG(w0 + "left out besides " + k);
        }
    }
}
// ---- fields of many kinds
#define KINDS_OF_FIELDS(S) bool b = false; int i = 0; unsigned char u = 0; long long l = 0; double d = 0; S s; std::vector<int> v; std::map<S, int> m; std::shared_ptr<int> p; int other = 42;
template <class X> static bool eq(const X& a, const X& b)
{
    return a.b == b.b && a.i == b.i && a.u == b.u && a.l == b.l && a.d == b.d && a.s == b.s && a.v == b.v && a.m == b.m && (!a.p == !b.p) && (!a.p || *a.p == *b.p);
}
struct AllReq { KINDS_OF_FIELDS(std::string) CONFIGOR_BIND(json::value, AllReq, REQUIRED(b), REQUIRED(i, "int"), REQUIRED(u), REQUIRED(l), REQUIRED(d, "d d"), REQUIRED(s), REQUIRED(v), REQUIRED(m), REQUIRED(p)) };
struct AllOpt { KINDS_OF_FIELDS(std::string) CONFIGOR_BIND(json::value, AllOpt, OPTIONAL(b), OPTIONAL(i, "int"), OPTIONAL(u), OPTIONAL(l), OPTIONAL(d, "d d"), OPTIONAL(s), OPTIONAL(v), OPTIONAL(m), OPTIONAL(p)) };
struct Mixed { KINDS_OF_FIELDS(std::string) CONFIGOR_BIND(json::value, Mixed, OPTIONAL(b), REQUIRED(i, "int"), OPTIONAL(u), REQUIRED(l), REQUIRED(d, "d d"), OPTIONAL(s), OPTIONAL(v), REQUIRED(m), OPTIONAL(p)) };
struct WReq { KINDS_OF_FIELDS(std::wstring) CONFIGOR_BIND(wjson::value, WReq, REQUIRED(b, L"b"), REQUIRED(i, L"int"), REQUIRED(u, L"u"), REQUIRED(l, L"l"), REQUIRED(d, L"d d"), REQUIRED(s, L"s"), REQUIRED(v, L"v"), REQUIRED(m, L"m"), REQUIRED(p, L"p")) };
struct WMixed { KINDS_OF_FIELDS(std::wstring) CONFIGOR_BIND(wjson::value, WMixed, OPTIONAL(b, L"b"), REQUIRED(i, L"int"), OPTIONAL(u, L"u"), REQUIRED(l, L"l"), REQUIRED(d, L"d d"), OPTIONAL(s, L"s"), OPTIONAL(v, L"v"), REQUIRED(m, L"m"), OPTIONAL(p, L"p")) };
template <class S> static S txt(const std::string& s) { return S(s.begin(), s.end()); }
static const char* const NAMES[] = { "b", "int", "u", "l", "d d", "s", "v", "m", "p" };
// content number q of a field, 0 is the default
template <class X> static X sample(const int* q)
{
    using S = decltype(X::s);
    X x; x.b = q[0] != 0; x.i = q[1] * 11; x.u = (unsigned char)(q[2] * 85); x.l = q[3] * -5000000000ll; x.d = q[4] * 0.75; x.s = txt<S>(std::string((size_t)q[5], 'z'));
    for (int j = 0; j < q[6]; ++j) { x.v.push_back(j); } for (int j = 0; j < q[7]; ++j) { x.m[txt<S>("k" + std::to_string(j))] = j; } if (q[8]) x.p = std::make_shared<int>(q[8]);
    return x;
}
template <class X, class V> static V piece(const X& x, int f)
{
    switch (f) { case 0: return V(x.b); case 1: return V(x.i); case 2: return V(x.u); case 3: return V(x.l); case 4: return V(x.d); case 5: return V(x.s); case 6: return V(x.v); case 7: return V(x.m); default: return V(x.p); }
}
template <class X> static void take(X& to, const X& x, int f)
{
    switch (f) { case 0: to.b = x.b; break; case 1: to.i = x.i; break; case 2: to.u = x.u; break; case 3: to.l = x.l; break; case 4: to.d = x.d; break; case 5: to.s = x.s; break; case 6: to.v = x.v; break; case 7: to.m = x.m; break; default: to.p = x.p; }
}
template <class X, class V> static void kinds(const std::string& name, const std::string& required)
{
    using S = decltype(X::s);
    uint32_t rnd = 12345;
    auto next = [&](int n) { rnd = rnd * 1664525u + 1013904223u; return (int)((rnd >> 16) % (uint32_t)n); };
    for (int run = 0; run < 400; ++run) {
        ++g_cases;
        std::string w = name + " run " + std::to_string(run) + ": ";
        int q[9], r[9]; for (int f = 0; f < 9; ++f) { q[f] = run == 0 ? 0 : run < 10 ? f == run - 1 : run < 20 ? f != run - 10 : next(4); r[f] = next(4); }
        const X x = sample<X>(q), y0 = sample<X>(r);
        V v(x); V v2 = r[0] ? V(txt<S>("text")) : V(y0); v2 = x;
        if (!(v == v2)) FAILMSG(w + "assignment and construction differ");
        bool any = false; for (int f = 0; f < 9; ++f) any = any || required[f] == 'r' || q[f];
        if (!v.is_object() && !(v.is_null() && !any)) { FAILMSG(w + "not an object"); continue; }
        size_t n = 0;
        for (int f = 0; f < 9; ++f) {
            S k = txt<S>(NAMES[f]);
            bool has = v.is_object() && v.count(k); n += has;
            if (!has && (required[f] == 'r' || q[f])) FAILMSG(w + "member " + NAMES[f] + " is missing");
            if (has && !(v[k] == piece<X, V>(x, f))) FAILMSG(w + "member " + NAMES[f] + " differs");
        }
        if (v.is_object() && v.size() != n) FAILMSG(w + "other members");
        { X y; y.other = 7; if (!v.get(y) || !eq(y, x)) FAILMSG(w + "not restored"); if (y.other != 7) FAILMSG(w + "a field that is not listed is touched"); X z = v.template get<X>(); if (!eq(z, x) || z.other != 42) FAILMSG(w + "not restored by get<T>()"); }
        // any subset of members, over any object
        V u(value_constant::object); bool missing = false; X want = y0; const X x2 = sample<X>(q);
        bool present[9];
        for (int f = 0; f < 9; ++f) { present[f] = run < 9 ? f != run : next(3) != 0; if (present[f]) { u[txt<S>(NAMES[f])] = piece<X, V>(x2, f); take(want, x2, f); } else if (required[f] == 'r') missing = true; }
        u[txt<S>("other")] = V(5); u[txt<S>("i")] = V(6);
        V before = u; X t = y0; t.other = 9;
        bool ok = u.get(t);
        if (!(u == before)) FAILMSG(w + "the value changed");
        if (ok == missing) FAILMSG(w + (missing ? "a missing required field is not an error" : "an error without a missing field"));
        if (!missing && !eq(t, want)) FAILMSG(w + "other contents than the members present");
        if (t.other != 9) FAILMSG(w + "a field that is not listed is touched, subset");
        if (outcome<V>([&] { u.template get<X>(); }) != (missing ? 1 : 0)) FAILMSG(w + "get<T>() of a subset");
        // a member of another kind does not change the other fields
        int bad = next(8); V c = v.is_object() ? v : V(value_constant::object);
        for (int f = 0; f < 9; ++f) c[txt<S>(NAMES[f])] = piece<X, V>(x, f);
        V odd(value_constant::object); odd[txt<S>("q")] = V(txt<S>("w")); c[txt<S>(NAMES[bad])] = odd;
        X e = y0; e.other = 8; c.get(e); if (bad != 7) take(e, x, bad); else e.m = x.m; if (c.get(e) && !([&] { X g = e; take(g, x, bad); return eq(g, x); }())) FAILMSG(w + "a member of another kind changes other fields");
        if (e.other != 8) FAILMSG(w + "a field that is not listed is touched, other kind");
    }
    for (const V& v : { V(), V(true), V(5), V(2.5), V(txt<S>("x")), V(value_constant::array), V(value_constant::object) }) {
        ++g_cases;
        bool need = required.find('r') != std::string::npos;
        int q[9] = { 1, 2, 3, 1, 2, 3, 1, 2, 3 }; X x = sample<X>(q); const X y = x; x.other = 3;
        bool ok = v.get(x);
        if (need && ok) FAILMSG(name + ": a value without the members is accepted");
        if (!eq(x, y) && !(!need && false)) { if (ok || x.other != 3) FAILMSG(name + ": fields change without members"); }
        if (x.other != 3) FAILMSG(name + ": a field that is not listed is touched, no object");
    }
}
// ---- nested types and containers of them
struct In { int a = 1; std::string b; bool operator!=(const In& o) const { return a != o.a || b != o.b; } bool operator==(const In& o) const { return !(*this != o); } CONFIGOR_BIND(json::value, In, REQUIRED(a), OPTIONAL(b)) };
struct Out { In one; std::vector<In> many; std::map<std::string, In> by; std::unique_ptr<In> ptr; CONFIGOR_BIND(json::value, Out, REQUIRED(one), REQUIRED(many, "list of"), OPTIONAL(by), REQUIRED(ptr)) };
static void nested()
{
    using V = json::value;
    for (int n = 0; n < 20; ++n) {
        ++g_cases;
        Out o; o.one.a = n; o.one.b = n % 3 ? "b" : "";
        for (int i = 0; i < n; ++i) { In k; k.a = i; k.b = std::string((size_t)i % 3, 'c'); o.many.push_back(k); if (i % 2) o.by["k" + std::to_string(i)] = k; }
        if (n % 2) { o.ptr.reset(new In); o.ptr->a = -n; }
        V v(o); Out r; r.one.b = "old"; r.many.resize(3); r.by["old"].a = 5; r.ptr.reset(new In);
        Out f = v.get<Out>();
        if (!v.get(r)) FAILMSG("nested: not converted back");
        for (Out* x : { &f, &r }) {
            bool same = x->one.a == o.one.a && (x->one.b == o.one.b || (x == &r && o.one.b.empty())) && x->many.size() == o.many.size() && !x->ptr == !o.ptr && (!o.ptr || x->ptr->a == o.ptr->a);
            for (size_t i = 0; same && i < o.many.size(); ++i) same = !(x->many[i] != o.many[i]);
            if (same && !(x == &r && o.by.empty())) { same = x->by.size() == o.by.size(); for (auto& p : o.by) if (same) same = x->by.count(p.first) && !(x->by[p.first] != p.second); }
            if (!same) FAILMSG("nested: not restored, " + std::to_string(n));
        }
        if (!(V(f) == v)) FAILMSG("nested: another value");
        V b = v; b["one"].erase("a"); Out t; (void)t;
        V a(value_constant::array); a.push_back(v["one"]); a.push_back(V(value_constant::object)); if (outcome<V>([&] { a.get<std::vector<In>>(); }) != 1) FAILMSG("nested: an element without a required field is accepted");
    }
}
// ---- without the macro
struct Own { long a = 0, n = 0; };
void to_value(json::value& c, const Own& o) { c["own"] = o.a; }
void from_value(const json::value& c, Own& o) { o.a = c.at("own").get<long>(); ++o.n; }
struct Ret { explicit Ret(long x) : a(x) { } long a; };
namespace configor {
template <> class value_binder<Ret>
{
public:
    static void to_value(json::value& c, const Ret& r) { c = r.a; }
    static Ret from_value(const json::value& c) { return Ret(c.is_null() ? -11 : c.is_array() ? -12 : c.is_object() ? -13 : c.get<long>()); }
};
}
static void own()
{
    using V = json::value;
    for (long n = -3; n < 4; ++n) {
        ++g_cases;
        Own o; o.a = n; V v(o); Own p = v.get<Own>(), q; q.n = 5;
        if (!v.is_object() || !(v["own"] == V(n)) || p.a != n || p.n != 1 || !v.get(q) || q.a != n || q.n != 6) FAILMSG("own functions");
        if (V(3).get(q) || outcome<V>([&] { V(3).get<Own>(); }) != 1) FAILMSG("own functions: an error is lost");
        Ret r(n); V w(r); Ret s(99); if (!(w == V(n)) || w.get<Ret>().a != n || !w.get(s) || s.a != n) FAILMSG("returned object");
        Ret t(7); if (V("x").get(t) || t.a != 7 || outcome<V>([&] { V("x").get<Ret>(); }) != 1) FAILMSG("returned object: an error is lost");
        Ret z(1); if (!V().get(z) || z.a != -11 || V().get<Ret>().a != -11 || !V(value_constant::array).get(z) || z.a != -12 || !V(value_constant::object).get(z) || z.a != -13) FAILMSG("returned object: of null or an empty container");
        std::vector<Own> os((size_t)(n + 3)); for (auto& x : os) x.a = n; V a(os); if (a.get<std::vector<Own>>().size() != os.size()) FAILMSG("own functions in a container");
    }
}
int main()
{
    GUARD("arity", [&] {
#define ONE(n) arity<N##n>(n, true); arity<P##n>(n, false);
        EVERY_ARITY(ONE)
    });
    GUARD("kinds", [&] {
        kinds<AllReq, json::value>("AllReq", "rrrrrrrrr"); kinds<AllOpt, json::value>("AllOpt", "ooooooooo"); kinds<Mixed, json::value>("Mixed", "ororroor" "o");
        kinds<WReq, wjson::value>("WReq", "rrrrrrrrr"); kinds<WMixed, wjson::value>("WMixed", "ororroor" "o");
    });
    GUARD("nested", [&] { nested(); });
    GUARD("own", [&] { own(); });
    return FINISH();
}
