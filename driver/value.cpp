// instantiations of the value class whose extracted code is verified
#include <configor/json.hpp>
#include <string>
namespace configor {
template class basic_value<value_tplargs>;
template class basic_value<wvalue_tplargs>;
}
using configor::value_constant;
template <class V> struct inst
{
    using S = typename V::string_type;
    using C = typename V::char_type;
    using A = typename V::array_type;
    using O = typename V::object_type;
    // life cycle
    static void destroy(V& v) { v.~V(); }
    static void def(V* p) { new (p) V(); }
    static void kind(V* p, value_constant::type t) { new (p) V(t); }
    static void copy(V* p, const V& v) { new (p) V(v); }
    static void move(V* p, V& v) { new (p) V(std::move(v)); }
    static V& assign(V& v, const V& w) { return v = w; }
    static V& massign(V& v, V& w) { return v = std::move(w); }
    static void swap(V& v, V& w) { v.swap(w); }
    static V& kassign(V& v, value_constant::type t) { return v = t; }
    // size and element access
    static std::size_t size(const V& v) { return v.size(); }
    static bool empty(const V& v) { return v.empty(); }
    static std::size_t count(const V& v, const S& k) { return v.count(k); }
    static std::size_t erase_k(V& v, const S& k) { return v.erase(k); }
    static void erase_n(V& v, std::size_t i) { v.erase(i); }
    static void push(V& v, const V& x) { v.push_back(x); }
    static void push_m(V& v, V& x) { v.push_back(std::move(x)); }
    static void clear(V& v) { v.clear(); }
    static V& at_n(const V& v, std::size_t i) { return v.at(i); }
    static V& at_k(const V& v, const S& k) { return v.at(k); }
    static V& idx_k(V& v, const S& k) { return v[k]; }
    static V& idx_nc(const V& v, std::size_t i) { return v[i]; }
    static V& idx_kc(const V& v, const S& k) { return v[k]; }
    static value_constant::type type(const V& v) { return v.type(); }
    static bool is_null(const V& v) { return v.is_null(); }
    static bool is_boolean(const V& v) { return v.is_bool(); }
    static bool is_integer(const V& v) { return v.is_integer(); }
    static bool is_floating(const V& v) { return v.is_floating(); }
    static bool is_number(const V& v) { return v.is_number(); }
    static bool is_string(const V& v) { return v.is_string(); }
    static bool is_array(const V& v) { return v.is_array(); }
    static bool is_object(const V& v) { return v.is_object(); }
    // element access by key literal
    static V& at_c(const V& v, const C* k) { return v.at(k); }
    static V& idx_c(V& v, const C* k) { return v[k]; }
    static V& idx_cc(const V& v, const C* k) { return v[k]; }
    static V& idx_n(V& v, std::size_t i) { return v[i]; }
    static void emp(V& v, const V& x) { v.emplace_back(x); }
    static void emp_m(V& v, V& x) { v.emplace_back(std::move(x)); }
    // comparison
    static bool eq(const V& a, const V& b) { return a == b; }
    static bool ne(const V& a, const V& b) { return a != b; }
    static bool lt(const V& a, const V& b) { return a < b; }
    static bool le(const V& a, const V& b) { return a <= b; }
    static bool gt(const V& a, const V& b) { return a > b; }
    static bool ge(const V& a, const V& b) { return a >= b; }
    template <class T> static bool eq1(const V& a, T b) { return a == b; }
    template <class T> static bool eq2(T a, const V& b) { return a == b; }
    template <class T> static bool ne1(const V& a, T b) { return a != b; }
    template <class T> static bool ne2(T a, const V& b) { return a != b; }
    template <class T> static bool lt1(const V& a, T b) { return a < b; }
    template <class T> static bool lt2(T a, const V& b) { return a < b; }
    template <class T> static bool le1(const V& a, T b) { return a <= b; }
    template <class T> static bool le2(T a, const V& b) { return a <= b; }
    template <class T> static bool gt1(const V& a, T b) { return a > b; }
    template <class T> static bool gt2(T a, const V& b) { return a > b; }
    template <class T> static bool ge1(const V& a, T b) { return a >= b; }
    template <class T> static bool ge2(T a, const V& b) { return a >= b; }
    template <class T> static int cmp(const V& a, T b)
    {
        return eq1<T>(a, b) + eq2<T>(b, a) + ne1<T>(a, b) + ne2<T>(b, a) + lt1<T>(a, b) + lt2<T>(b, a) + le1<T>(a, b) + le2<T>(b, a)
               + gt1<T>(a, b) + gt2<T>(b, a) + ge1<T>(a, b) + ge2<T>(b, a);
    }
    // typed access
    template <class T> static T get(const V& v) { return v.template get<T>(); }
    template <class T> static T conv(const V& v) { return v; }
    template <class T> static bool get_to(const V& v, T& t) { return v.get(t); }
    template <class T> static T& ref(V& v) { return v.template get<T&>(); }
    template <class T> static const T& cref(const V& v) { return v.template get<const T&>(); }
    template <class T> static const T& mcref(V& v) { return v.template get<const T&>(); }
    template <class T> static T* ptr(V& v) { return v.template get<T*>(); }
    template <class T> static const T* cptr(const V& v) { return v.template get<const T*>(); }
    template <class T> static T* gptr(V& v) { return v.template get_ptr<T*>(); }
    template <class T> static const T* gcptr(const V& v) { return v.template get_ptr<const T*>(); }
    template <class T> static void make(V* p, const T& t) { new (p) V(t); }
    template <class T> static void make_m(V* p, T& t) { new (p) V(std::move(t)); }
    template <class T> static void scalar(V& v, T& t, void* out)
    {
        *static_cast<T*>(out) = get<T>(v);
        get_to<T>(v, t);
        *static_cast<T*>(out) = conv<T>(v);
        make<T>(static_cast<V*>(out), t);
    }
    template <class T> static void held(V& v, void* out)
    {
        *static_cast<const void**>(out) = &ref<T>(v);
        *static_cast<const void**>(out) = &cref<T>(v);
        *static_cast<const void**>(out) = &mcref<T>(v);
        *static_cast<const void**>(out) = ptr<T>(v);
        *static_cast<const void**>(out) = cptr<T>(v);
        *static_cast<const void**>(out) = gptr<T>(v);
        *static_cast<const void**>(out) = gcptr<T>(v);
    }
    template <class T> static T& any(void* p) { return *static_cast<T*>(p); }
    static void all(V& v, V& w, void* p)
    {
        destroy(v); def(&v); kind(&v, value_constant::array); copy(&v, w); move(&v, w); assign(v, w); massign(v, w); swap(v, w);
        kassign(v, value_constant::array);
        any<std::size_t>(p) = size(v) + empty(v) + count(v, any<S>(p)) + erase_k(v, any<S>(p)) + type(v) + is_null(v) + is_boolean(v) + is_integer(v)
                              + is_floating(v) + is_number(v) + is_string(v) + is_array(v) + is_object(v);
        erase_n(v, 0); push(v, w); push_m(v, w); clear(v);
        at_n(v, 0); at_k(v, any<S>(p)); idx_k(v, any<S>(p)); idx_nc(v, 0); idx_kc(v, any<S>(p));
        at_c(v, any<const C*>(p)); idx_c(v, any<const C*>(p)); idx_cc(v, any<const C*>(p)); idx_n(v, 0); emp(v, w); emp_m(v, w);
        any<int>(p) = eq(v, w) + ne(v, w) + lt(v, w) + le(v, w) + gt(v, w) + ge(v, w);
        any<int>(p) = cmp<int>(v, 1) + cmp<long long>(v, 1) + cmp<bool>(v, true) + cmp<double>(v, 1.0) + cmp<unsigned>(v, 1u) + cmp<float>(v, 1.0f);
        scalar<bool>(v, any<bool>(p), p);
        scalar<signed char>(v, any<signed char>(p), p);
        scalar<short>(v, any<short>(p), p);
        scalar<int>(v, any<int>(p), p);
        scalar<long long>(v, any<long long>(p), p);
        scalar<typename V::integer_type>(v, any<typename V::integer_type>(p), p);
        scalar<unsigned char>(v, any<unsigned char>(p), p);
        scalar<unsigned>(v, any<unsigned>(p), p);
        scalar<unsigned long>(v, any<unsigned long>(p), p);
        scalar<float>(v, any<float>(p), p);
        scalar<double>(v, any<double>(p), p);
        held<bool>(v, p);
        held<typename V::integer_type>(v, p);
        held<double>(v, p);
        held<S>(v, p);
        held<A>(v, p);
        held<O>(v, p);
        any<S>(p) = get<S>(v);
        get_to<S>(v, any<S>(p));
        any<A>(p) = get<A>(v);
        get_to<A>(v, any<A>(p));
        any<O>(p) = get<O>(v);
        get_to<O>(v, any<O>(p));
        any<V>(p) = get<V>(v);
        get_to<V>(v, any<V>(p));
        make<S>(&v, any<S>(p));
        make_m<S>(&v, any<S>(p));
        make<const C*>(&v, any<const C*>(p));
        make<std::nullptr_t>(&v, nullptr);
        make_m<A>(&v, any<A>(p));
        make_m<O>(&v, any<O>(p));
    }
};
void all(configor::json::value& v, configor::wjson::value& w, void* p)
{
    inst<configor::json::value>::all(v, v, p);
    inst<configor::wjson::value>::all(w, w, p);
}
