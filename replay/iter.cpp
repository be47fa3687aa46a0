// bounded native cross-check of iteration (C15)
#include "common.hpp"
#include <configor/json.hpp>
#include <stdexcept>
#include <vector>
template <class S> static S txt(const std::string& s) { return S(s.begin(), s.end()); }
template <class S> static std::string nar(const S& s) { return std::string(s.begin(), s.end()); }
template <class F> static int outcome(F f)      // 0 returns, 1 invalid iterator, 2 out of range, 3 another exception
{
    try { f(); return 0; }
    catch (const configor::configor_invalid_iterator&) { return 1; }
    catch (const std::out_of_range&) { return 2; }
    catch (...) { return 3; }
}
template <class V> struct T
{
    using S = typename V::string_type;
    std::string inst;
    void say(const std::string& kind, int n, const std::string& what) { FAILMSG(inst + " " + kind + " of " + std::to_string(n) + ": " + what); }
    V make(const std::string& kind, int n)
    {
        if (kind == "array") { V v(configor::value_constant::array); for (int i = 0; i < n; ++i) v.push_back(V(10 + i)); return v; }
        if (kind == "object") { V v(configor::value_constant::object); for (int i = n; i-- > 0;) v[txt<S>(std::string(1, (char)('a' + i)))] = V(10 + i); return v; }
        if (kind == "null") return V();
        if (kind == "boolean") return V(true);
        if (kind == "integer") return V(10);
        if (kind == "floating") return V(10.5);
        return V(txt<S>("10"));
    }
    bool is(const V& e, const V& whole, const std::string& kind, int i)
    {
        if (kind == "array") return &e == &whole[(size_t)i];
        if (kind == "object") return &e == &whole.at(txt<S>(std::string(1, (char)('a' + i))));
        return &e == &whole && i == 0;
    }
    template <class I> I at(I b, int i) { while (i-- > 0) ++b; return b; }
    template <class W, class I> void walks(W& v, const std::string& kind, int n, I b, I e)
    {
        ++g_cases;
        bool ind = kind == "array" || kind == "object";
        std::vector<I> its;
        int c = 0;
        for (I i = b; i != e; ++i) {
            if (c >= n) { say(kind, n, "more visits than elements"); return; }
            its.push_back(i);
            if (!is(*i, v, kind, c) || i.operator->() != &*i || &i.value() != &*i) say(kind, n, "visit " + std::to_string(c) + " is another element");
            if (kind == "object") { if (nar(i.key()) != std::string(1, (char)('a' + c))) say(kind, n, "key of visit " + std::to_string(c) + " is " + nar(i.key())); }
            else if (outcome([&] { i.key(); }) == 0) say(kind, n, "an element without key has one");
            ++c;
        }
        if (c != n) say(kind, n, "visited " + std::to_string(c));
        its.push_back(e);
        if (outcome([&] { (void)*e; }) != 2 || outcome([&] { e.value(); }) != 2 || outcome([&] { e.operator->(); }) != 2) say(kind, n, "dereferencing the end raises no error");
        if (outcome([&] { e.key(); }) == 0) say(kind, n, "the end has a key");
        // down again
        I d = e;
        for (int i = n; i-- > 0;) { I old = d; I k = d--; if (!(k == old) || !is(*d, v, kind, i)) say(kind, n, "backward step to " + std::to_string(i)); }
        if (!(d == b)) say(kind, n, "backward iteration does not end at the beginning");
        I u = b;
        for (int i = 0; i < n; ++i) { I old = u; I k = u++; if (!(k == old) || !(u == its[(size_t)i + 1])) say(kind, n, "postfix step"); }
        // positions
        I foreign = W(v).begin();
        for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) {
            I x = its[(size_t)i], y = its[(size_t)j];
            if ((x == y) != (i == j) || (x != y) == (i == j)) say(kind, n, "equality of positions");
            bool a = 0, bb = 0, cc = 0, dd = 0;
            int o = outcome([&] { a = x < y; bb = x <= y; cc = x > y; dd = x >= y; });
            if (kind == "object" ? o != 1 : o != 0 || a != (i < j) || bb != (i <= j) || cc != (i > j) || dd != (i >= j)) say(kind, n, "order of positions");
            std::ptrdiff_t q = 0;
            o = outcome([&] { q = x - y; });
            if (kind == "array" ? o != 0 || q != i - j : o != 1) say(kind, n, "distance of positions");
            if (kind == "object") { if (outcome([&] { x += j - i; }) != 1 || outcome([&] { x -= 1; }) != 1 || outcome([&] { x + 1; }) != 1 || outcome([&] { x - 1; }) != 1) say(kind, n, "offset of an object iterator"); }
            else { I z = x; z += j - i; I w = x; w -= i - j; if (!(z == y) || !(w == y) || !(x + (j - i) == y) || !(x - (i - j) == y)) say(kind, n, "arithmetic on positions"); }
            I g = b; g = x; I h(x);
            if (!(g == x) || !(h == x)) say(kind, n, "copy of an iterator");
        }
        W other = v;
        I f(&other);
        if (b == f || !(b != f) || outcome([&] { (void)(b < f); }) != 1 || outcome([&] { (void)(b - f); }) != 1) say(kind, n, "iterators of different values");
        I none(nullptr);
        if (none == b || outcome([&] { (void)*none; }) != 1 || outcome([&] { ++none; }) != 1) say(kind, n, "empty iterator");
        (void)ind; (void)foreign;
    }
    template <class W, class R> void back(W& v, const std::string& kind, int n, R b, R e)
    {
        ++g_cases;
        int c = n;
        for (R i = b; i != e; ++i) {
            if (--c < 0) { say(kind, n, "more backward visits than elements"); return; }
            if (!is(*i, v, kind, c) || &i.value() != &*i) say(kind, n, "backward visit of " + std::to_string(c) + " is another element");
            if (kind == "object" ? nar(i.key()) != std::string(1, (char)('a' + c)) : outcome([&] { i.key(); }) == 0) say(kind, n, "key of a backward visit");
        }
        if (c != 0) say(kind, n, "backward visits left: " + std::to_string(c));
    }
    template <class I> void erase(const std::string& kind, int n)
    {
        for (int i = 0; i <= n; ++i) {
            ++g_cases;
            if (i < n || (kind != "array" && kind != "object")) {
                V v = make(kind, n), w = v;
                I it = at(I(v.begin()), i), r = I(v.begin());
                int o = outcome([&] { r = v.erase(it); });
                check(kind, n, i, i + 1, v, w, o, r);
            }
            for (int j = i; j <= n; ++j) {
                V v = make(kind, n), w = v;
                I a = at(I(v.begin()), i), b = at(I(v.begin()), j), r = I(v.begin());
                int o = outcome([&] { r = v.erase(a, b); });
                check(kind, n, i, j, v, w, o, r);
            }
        }
    }
    template <class I> void check(const std::string& kind, int n, int i, int j, V& v, const V& w, int o, I r)
    {
        if (kind != "array" && kind != "object") { if (o != 1 || !(v == w)) say(kind, n, "erase through an iterator"); return; }
        V want(w.type());
        for (int k = 0; k < n; ++k) if (k < i || k >= j) { if (kind == "array") want.push_back(V(10 + k)); else want[txt<S>(std::string(1, (char)('a' + k)))] = V(10 + k); }
        if (o != 0 || !(v == want)) say(kind, n, "erase of " + std::to_string(i) + ".." + std::to_string(j) + " removes something else");
        else if (!(r == at(I(v.begin()), i))) say(kind, n, "erase of " + std::to_string(i) + ".." + std::to_string(j) + " returns another position");
    }
    void all()
    {
        for (const char* k : { "array", "object", "null", "boolean", "integer", "floating", "string" }) {
            std::string kind = k;
            bool ind = kind == "array" || kind == "object";
            for (int n : { 0, 1, 2, 3, 4, 5, 8, 17, 26 }) {
                if (!ind && n) continue;
                int m = ind ? n : kind == "null" ? 0 : 1;
                GUARD(inst + " " + kind + " of " + std::to_string(m), [&] {
                    V v = make(kind, m);
                    const V& c = v;
                    V keep = v;
                    typedef typename V::iterator I; typedef typename V::const_iterator J;
                    walks<V, I>(v, kind, m, v.begin(), v.end());
                    walks<const V, J>(c, kind, m, c.begin(), c.end());
                    walks<const V, J>(c, kind, m, c.cbegin(), c.cend());
                    walks<const V, J>(c, kind, m, J(v.begin()), J(v.end()));
                    back(v, kind, m, v.rbegin(), v.rend());
                    back(c, kind, m, c.rbegin(), c.rend());
                    back(c, kind, m, c.crbegin(), c.crend());
                    int q = 0; for (auto& e : v) { if (!is(e, v, kind, q)) say(kind, m, "range for"); ++q; } if (q != m) say(kind, m, "range for visits " + std::to_string(q));
                    q = 0; for (auto& e : c) { if (!is(e, c, kind, q)) say(kind, m, "range for"); ++q; } if (q != m) say(kind, m, "range for visits " + std::to_string(q));
                    for (int i = -1; i <= m; ++i) {
                        S key = txt<S>(i < 0 ? std::string("A") : std::string(1, (char)('a' + i)));
                        bool in = kind == "object" && i >= 0 && i < m;
                        if (!(v.find(key) == (in ? at(v.begin(), i) : v.end())) || !(c.find(key) == (in ? at(c.begin(), i) : c.end()))) say(kind, m, "find");
                    }
                    if (!(v == keep)) say(kind, m, "iteration changed the value");
                    if (m <= 8) { erase<I>(kind, m); erase<J>(kind, m); }
                });
            }
        }
    }
};
int main()
{
    T<configor::json::value> a; a.inst = "json"; a.all();
    T<configor::wjson::value> b; b.inst = "wjson"; b.all();
    return FINISH();
}
