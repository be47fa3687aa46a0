// bounded native cross-check of container and pointer conversions (C14)
#include "common.hpp"
#include <configor/json.hpp>
#include <stdexcept>
using configor::value_constant;
template <class S> static S txt(const std::string& s) { return S(s.begin(), s.end()); }
// element types
template <class V, class T> struct El;
template <class V> struct El<V, int> { static int mk(int i) { return i * 7 - 3; } static V val(int i) { return V(i * 7 - 3); } };
template <class V> struct El<V, double> { static double mk(int i) { return i + 0.5; } static V val(int i) { return V(i + 0.5); } };
template <class V> struct El<V, bool> { static bool mk(int i) { return i % 2 == 0; } static V val(int i) { return V(i % 2 == 0); } };
template <class V> struct El<V, typename V::string_type>
{
    using S = typename V::string_type;
    static S mk(int i) { return txt<S>("e" + std::to_string(i)); }
    static V val(int i) { return V(mk(i)); }
};
template <class V> struct El<V, std::vector<int>>
{
    static std::vector<int> mk(int i) { return std::vector<int>((size_t)i % 4, i); }
    static V val(int i) { V v(value_constant::array); for (int j = 0; j < i % 4; ++j) v.push_back(V(i)); return v; }
};
template <class V> static std::vector<V> all()
{
    using S = typename V::string_type;
    std::vector<V> r { V(), V(true), V(5), V(2.5), V(txt<S>("x")), V(txt<S>("")) };
    r.push_back(V(value_constant::array)); r.push_back(V(value_constant::object));
    V a(value_constant::array); a.push_back(V(1)); r.push_back(a);
    V b(value_constant::array); b.push_back(V(value_constant::object)); b.push_back(V()); r.push_back(b);
    V o(value_constant::object); o[txt<S>("k")] = V(1); r.push_back(o);
    return r;
}
// how to fill a container with the elements of these numbers
template <class T> struct Seq { template <class C> static void add(C& c, const T& x) { c.push_back(x); } };
template <class C, class T> static void fill_(C& c, const std::vector<T>& xs, int) { for (const T& x : xs) c.push_back(x); }
template <class T> static void fill_(std::forward_list<T>& c, const std::vector<T>& xs, int) { for (size_t i = xs.size(); i-- > 0;) c.push_front(xs[i]); }
template <class T> static void fill_(std::set<T>& c, const std::vector<T>& xs, int) { for (const T& x : xs) c.insert(x); }
template <class T> static void fill_(std::unordered_set<T>& c, const std::vector<T>& xs, int) { for (const T& x : xs) c.insert(x); }
template <class V, class T> struct Run
{
    using S = typename V::string_type;
    std::string inst;
    void say(const std::string& w) { FAILMSG(inst + ": " + w); }
    int rep = 1;  // every element this many times
    int no(int i) { return rep > 0 ? i / rep : 100 - i; }
    std::vector<T> els(int n, int from = 0) { std::vector<T> r; for (int i = 0; i < n; ++i) r.push_back(El<V, T>::mk(no(from + i))); return r; }
    template <class C> int get_outcome(const V& v, C* out) { try { C c = v.template get<C>(); if (out) *out = c; return 0; } catch (const configor::configor_exception&) { return 1; } catch (const std::exception&) { return 1; } catch (...) { return 2; } }
    // sequences and sets
    template <class C> void seq(const std::string& cn, bool ordered)
    {
        for (int n : { 0, 1, 2, 3, 7, 40 }) for (int m : { 0, 1, 5, 50 }) for (int q : { 1, 2, 50, -1 }) {
            ++g_cases;
            rep = q;
            std::string w = cn + " of " + std::to_string(n) + " over " + std::to_string(m);
            C c; fill_(c, els(n), 0);
            C c2 = c;
            V v(c);
            if (!(c == c2)) say(w + ": the container changed");
            if (!v.is_array()) { say(w + ": not an array"); continue; }
            size_t i = 0, cnt = 0;
            for (const auto& e : c) { ++cnt; if (ordered || true) if (i < v.size() && !(v[i] == V(static_cast<const T&>(e)))) say(w + ": element " + std::to_string(i) + " differs"); ++i; }
            if (v.size() != cnt) say(w + ": " + std::to_string(v.size()) + " elements");
            C t; fill_(t, els(m, 3), 0);
            if (!v.get(t) || !(t == c)) say(w + ": another container after get(T&)");
            C g; if (get_outcome<C>(v, &g) != 0 || !(g == c)) say(w + ": another container after get<T>()");
            V back(value_constant::array); for (int j = 0; j < n; ++j) back.push_back(El<V, T>::val(no(j)));
            C h; fill_(h, els(m, 9), 0); if (!back.get(h) || !(h == c)) say(w + ": an array of the elements gives another container");
            if (n > 1) { V half = back; half[(size_t)n - 1] = V(value_constant::object); V k(value_constant::object); k[txt<S>("q")] = V(1); half[(size_t)n - 1] = k; if (get_outcome<C>(half, nullptr) != 1) say(w + ": an element of the wrong kind is accepted"); C h2; if (half.get(h2)) say(w + ": an element of the wrong kind is accepted by get(T&)"); }
        }
        rep = 1;
        others<C>(cn, [](const V& v) { return v.is_null() || ((v.is_array() || v.is_object()) && v.empty()); }, [](const V& v) { return v.is_array(); });
    }
    template <class C, class F, class G> void others(const std::string& cn, F empty, G own)
    {
        int k = 0;
        for (const V& v : all<V>()) {
            ++g_cases; ++k;
            std::string w = cn + " from value " + std::to_string(k);
            C c {}; 
            if (empty(v)) { if (get_outcome<C>(v, &c) != 0 || !(c == C {})) say(w + ": not an empty container"); }
            else if (!own(v)) { if (get_outcome<C>(v, nullptr) != 1) say(w + ": a value of another kind is accepted"); C d {}; if (v.get(d)) say(w + ": a value of another kind is accepted by get(T&)"); }
        }
    }
    template <class C> void map(const std::string& cn)
    {
        for (int n : { 0, 1, 2, 7, 30 }) for (int m : { 0, 1, 5, 40 }) {
            ++g_cases;
            std::string w = cn + " of " + std::to_string(n) + " over " + std::to_string(m);
            C c; for (int i = 0; i < n; ++i) c.emplace(txt<S>("k" + std::to_string(i)), El<V, T>::mk(i));
            C c2 = c;
            V v(c);
            if (!(c == c2)) say(w + ": the map changed");
            if (!v.is_object() || v.size() != (size_t)n) { say(w + ": not an object of as many members"); continue; }
            for (int i = 0; i < n; ++i) if (!v.count(txt<S>("k" + std::to_string(i))) || !(v.at(txt<S>("k" + std::to_string(i))) == El<V, T>::val(i))) say(w + ": member " + std::to_string(i));
            C t; for (int i = 0; i < m; ++i) t.emplace(txt<S>("k" + std::to_string(i * 2)), El<V, T>::mk(i + 11));
            if (!v.get(t) || !(t == c)) say(w + ": another map after get(T&)");
            C g; if (get_outcome<C>(v, &g) != 0 || !(g == c)) say(w + ": another map after get<T>()");
            if (n) { V bad = v; V k(value_constant::object); k[txt<S>("q")] = V(1); bad[txt<S>("k" + std::to_string(n / 2))] = k; if (get_outcome<C>(bad, nullptr) != 1) say(w + ": a member of the wrong kind is accepted"); }
        }
        others<C>(cn, [](const V& v) { return v.is_null() || ((v.is_array() || v.is_object()) && v.empty()); }, [](const V& v) { return v.is_object(); });
    }
    template <size_t N> void fixed()
    {
        for (int m = 0; m < 7; ++m) {
            ++g_cases;
            std::string w = "array of " + std::to_string(N) + " from " + std::to_string(m);
            V v(value_constant::array); for (int i = 0; i < m; ++i) v.push_back(El<V, T>::val(i));
            std::array<T, N> a; T c[N];
            for (size_t i = 0; i < N; ++i) a[i] = c[i] = El<V, T>::mk((int)i + 20);
            if (!v.get(a)) say(w + ": std::array refused"); if (!v.get(c)) say(w + ": C array refused");
            for (size_t i = 0; i < N; ++i) {
                T want = (int)i < m ? El<V, T>::mk((int)i) : El<V, T>::mk((int)i + 20);
                if (!(a[i] == want)) say(w + ": std::array element " + std::to_string(i));
                if (!(c[i] == want)) say(w + ": C array element " + std::to_string(i));
            }
            V x(a), y(c);
            for (const V* z : { &x, &y }) {
                if (!z->is_array() || z->size() != N) { say(w + ": to a value of another size"); continue; }
                for (size_t i = 0; i < N; ++i) if (!((*z)[i] == V(a[i]))) say(w + ": to a value, element " + std::to_string(i));
            }
        }
        int k = 0;
        for (const V& v : all<V>()) {
            ++k; ++g_cases;
            if (v.is_array() || v.is_null() || (v.is_object() && v.empty())) continue;
            std::array<T, N> a = {}; T c[N] = {};
            if (v.get(a) || v.get(c)) say("array from value " + std::to_string(k) + ": a value of another kind is accepted");
        }
    }
    template <class P> void ptr(const std::string& cn, P full, P full2)
    {
        ++g_cases;
        P none;
        V n(none); if (!n.is_null()) say(cn + ": empty is not null");
        V v(full); if (!(v == El<V, T>::val(4))) say(cn + ": another value"); if (!full || !(*full == El<V, T>::mk(4))) say(cn + ": the pointer changed");
        if (!v.get(none) || !none || !(*none == El<V, T>::mk(4))) say(cn + ": another element into an empty pointer");
        if (!v.get(full2) || !full2 || !(*full2 == El<V, T>::mk(4))) say(cn + ": another element into a full pointer");
        if (!V().get(full2) || full2) say(cn + ": null is not an empty pointer");
        P g = v.template get<P>(); if (!g || !(*g == El<V, T>::mk(4))) say(cn + ": get<T>()");
        if (V().template get<P>()) say(cn + ": get<T>() of null");
        V bad(value_constant::object); bad[txt<S>("q")] = V(1); P t; if (bad.get(t)) say(cn + ": a value of another kind is accepted");
        try { bad.template get<P>(); say(cn + ": a value of another kind is accepted"); } catch (const std::exception&) { }
    }
};
template <class V, class T> static void common(const std::string& n)
{
    GUARD(n, [&] {
        Run<V, T> r; r.inst = n;
        r.template seq<std::deque<T>>("deque", true);
        r.template seq<std::list<T>>("list", true);
        r.template seq<std::forward_list<T>>("forward_list", true);
        r.template map<std::map<typename V::string_type, T>>("map");
        r.template map<std::unordered_map<typename V::string_type, T>>("unordered_map");
        r.template fixed<1>(); r.template fixed<3>(); r.template fixed<5>();
        r.template ptr<std::unique_ptr<T>>("unique_ptr", std::unique_ptr<T>(new T(El<V, T>::mk(4))), std::unique_ptr<T>(new T(El<V, T>::mk(5))));
        r.template ptr<std::shared_ptr<T>>("shared_ptr", std::make_shared<T>(El<V, T>::mk(4)), std::make_shared<T>(El<V, T>::mk(5)));
        // what a shared_ptr shares with is not touched
        for (int k = 1; k < 6; ++k) {
            auto a = std::make_shared<T>(El<V, T>::mk(1)); std::vector<std::shared_ptr<T>> b((size_t)k, a); std::weak_ptr<T> w = a;
            if (!El<V, T>::val(2).get(a) || !(*a == El<V, T>::mk(2))) r.say("another element into a shared pointer");
            for (auto& x : b) if (!(*x == El<V, T>::mk(1))) r.say("a shared object is overwritten");
            if (!V().get(a) || a) r.say("null is not an empty pointer, shared");
        }
        // an object whose only owner is the target, but that is watched or addressed otherwise
        auto o = std::make_shared<T>(El<V, T>::mk(1)); std::weak_ptr<T> ow = o; if (!El<V, T>::val(2).get(o) || !(*o == El<V, T>::mk(2))) r.say("another element into a watched pointer");
    });
}
template <class V> static void every(const std::string& n)
{
    using S = typename V::string_type;
    common<V, int>(n + " int"); common<V, double>(n + " double"); common<V, S>(n + " string"); common<V, std::vector<int>>(n + " vector<int>"); common<V, bool>(n + " bool");
    GUARD(n, [&] {
        Run<V, int> i; i.inst = n + " int"; Run<V, S> s; s.inst = n + " string"; Run<V, double> d; d.inst = n + " double"; Run<V, std::vector<int>> v; v.inst = n + " vector<int>";
        i.template seq<std::vector<int>>("vector", true); s.template seq<std::vector<S>>("vector", true); d.template seq<std::vector<double>>("vector", true); v.template seq<std::vector<std::vector<int>>>("vector", true);
        i.template seq<std::set<int>>("set", true); s.template seq<std::set<S>>("set", true); v.template seq<std::set<std::vector<int>>>("set", true);
        i.template seq<std::unordered_set<int>>("unordered_set", false); s.template seq<std::unordered_set<S>>("unordered_set", false);
    });
}
int main()
{
    every<configor::json::value>("json");
    every<configor::wjson::value>("wjson");
    return FINISH();
}
