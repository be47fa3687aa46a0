// uses of the iterators of the value class whose extracted code is verified
#include <configor/json.hpp>
#include <iterator>
using configor::json;
using configor::wjson;
void seen(json::value& e);
void seen(const json::value& e);
void seen(wjson::value& e);
void seen(const wjson::value& e);
void named(const json::value::string_type& k, const json::value& e);
void named(const wjson::value::string_type& k, const wjson::value& e);
template <class V> struct inst
{
    using S  = typename V::string_type;
    using D  = std::ptrdiff_t;
    using I  = typename V::iterator;
    using J  = typename V::const_iterator;
    using RI = typename V::reverse_iterator;
    using RJ = typename V::const_reverse_iterator;
    static I begin(V& v) { return v.begin(); }
    static I end(V& v) { return v.end(); }
    static J begin_c(const V& v) { return v.begin(); }
    static J end_c(const V& v) { return v.end(); }
    static J cbegin(const V& v) { return v.cbegin(); }
    static J cend(const V& v) { return v.cend(); }
    static RI rbegin(V& v) { return v.rbegin(); }
    static RI rend(V& v) { return v.rend(); }
    static RJ rbegin_c(const V& v) { return v.rbegin(); }
    static RJ rend_c(const V& v) { return v.rend(); }
    static RJ crbegin(const V& v) { return v.crbegin(); }
    static RJ crend(const V& v) { return v.crend(); }
    static I find(V& v, const S& k) { return v.find(k); }
    static J find_c(const V& v, const S& k) { return v.find(k); }
    template <class X> static void inc(X& i) { ++i; }
    template <class X> static void dec(X& i) { --i; }
    template <class X> static X pinc(X& i) { return i++; }
    template <class X> static X pdec(X& i) { return i--; }
    template <class X> static void adv(X& i, D n) { i += n; }
    template <class X> static void ret(X& i, D n) { i -= n; }
    template <class X> static X plus(const X& i, D n) { return i + n; }
    template <class X> static X minus(const X& i, D n) { return i - n; }
    template <class X> static D dist(const X& i, const X& j) { return i - j; }
    template <class X> static bool eq(const X& i, const X& j) { return i == j; }
    template <class X> static bool ne(const X& i, const X& j) { return i != j; }
    template <class X> static bool lt(const X& i, const X& j) { return i < j; }
    template <class X> static bool le(const X& i, const X& j) { return i <= j; }
    template <class X> static bool gt(const X& i, const X& j) { return i > j; }
    template <class X> static bool ge(const X& i, const X& j) { return i >= j; }
    template <class X> static const V& deref(const X& i) { return *i; }
    template <class X> static const V* arrow(const X& i) { return i.operator->(); }
    template <class X> static const V& value(const X& i) { return i.value(); }
    template <class X> static const S& key(const X& i) { return i.key(); }
    template <class X> static X copy(const X& i) { return i; }
    template <class X> static void assign(X& i, const X& j) { i = j; }
    static J conv(const I& i) { return i; }
    static void cassign(J& i, const I& j) { i = j; }
    static I erase(V& v, const I& i) { return v.erase(i); }
    static J erase_c(V& v, const J& i) { return v.erase(i); }
    static I erase_r(V& v, const I& i, const I& j) { return v.erase(i, j); }
    static J erase_rc(V& v, const J& i, const J& j) { return v.erase(i, j); }
    // whole iterations
    static void forward(V& v) { for (auto& e : v) seen(e); }
    static void forward_c(const V& v) { for (auto& e : v) seen(e); }
    static void backward(V& v) { for (auto i = v.rbegin(); i != v.rend(); ++i) seen(*i); }
    static void backward_c(const V& v) { for (auto i = v.crbegin(); i != v.crend(); ++i) seen(i.value()); }
    static void down(V& v) { for (auto i = v.end(); i != v.begin();) seen(*--i); }
    static void names(const V& v) { for (auto i = v.begin(); i != v.end(); i++) named(i.key(), i.value()); }
    static void names_r(const V& v) { for (auto i = v.rbegin(); i != v.rend(); i++) named(i.key(), i.value()); }
};
template <class V> void use(V& v, const V& c, typename V::iterator& i, typename V::const_iterator& j, typename V::reverse_iterator& r, typename V::const_reverse_iterator& q, const typename V::string_type& k)
{
    using T = inst<V>;
    T::begin(v); T::end(v); T::begin_c(c); T::end_c(c); T::cbegin(c); T::cend(c); T::rbegin(v); T::rend(v); T::rbegin_c(c); T::rend_c(c); T::crbegin(c); T::crend(c);
    T::find(v, k); T::find_c(c, k);
#define BOTH(f, ...) T::f(i, ##__VA_ARGS__); T::f(j, ##__VA_ARGS__);
#define TWO(f) T::f(i, i); T::f(j, j);
    BOTH(inc) BOTH(dec) BOTH(pinc) BOTH(pdec) BOTH(adv, 1) BOTH(ret, 1) BOTH(plus, 1) BOTH(minus, 1)
    TWO(dist) TWO(eq) TWO(ne) TWO(lt) TWO(le) TWO(gt) TWO(ge) TWO(assign)
    BOTH(deref) BOTH(arrow) BOTH(value) BOTH(key) BOTH(copy)
    T::inc(r); T::inc(q); T::dec(r); T::dec(q); T::eq(r, r); T::eq(q, q); T::ne(r, r); T::ne(q, q); T::deref(r); T::deref(q); T::value(r); T::value(q); T::key(r); T::key(q);
    T::conv(i); T::cassign(j, i); T::erase(v, i); T::erase_c(v, j); T::erase_r(v, i, i); T::erase_rc(v, j, j);
    T::forward(v); T::forward_c(c); T::backward(v); T::backward_c(c); T::down(v); T::names(c); T::names_r(c);
}
template void use<json::value>(json::value&, const json::value&, json::value::iterator&, json::value::const_iterator&, json::value::reverse_iterator&, json::value::const_reverse_iterator&, const json::value::string_type&);
template void use<wjson::value>(wjson::value&, const wjson::value&, wjson::value::iterator&, wjson::value::const_iterator&, wjson::value::reverse_iterator&, wjson::value::const_reverse_iterator&, const wjson::value::string_type&);
