// conversions of containers and pointers whose extracted code is verified; the element type is a user type E of which
// nothing is known but that it is copyable and that its binder converts it
#include <configor/json.hpp>
using configor::json;
using configor::wjson;
struct E
{
    E();
    E(const E&);
    E& operator=(const E&);
    ~E();
    long id;
};
bool operator<(const E&, const E&);
bool operator==(const E&, const E&);
namespace std { template <> struct hash<E> { size_t operator()(const E&) const; }; }
namespace configor {
template <> class value_binder<E>
{
public:
    static void to_value(json::value& c, const E& v);
    static void to_value(wjson::value& c, const E& v);
    static void from_value(const json::value& c, E& v);
    static void from_value(const wjson::value& c, E& v);
};
}
template <class V> struct inst
{
    using S = typename V::string_type;
    template <class C> static V to(const C& x) { return V(x); }
    template <class C> static void from(const V& v, C& x) { configor::value_binder<C>::from_value(v, x); }
    template <class C> static C got(const V& v) { return v.template get<C>(); }
    template <class C> static bool tryget(const V& v, C& x) { return v.get(x); }
};
template <class V, class C> void both(V& v, C& x) { using T = inst<V>; T::template to<C>(x); T::template from<C>(v, x); T::template got<C>(v); T::template tryget<C>(v, x); }
template <class V> void use(V& v, std::vector<E>& a, std::deque<E>& b, std::list<E>& c, std::forward_list<E>& d, std::set<E>& e, std::unordered_set<E>& f,
                            std::map<typename V::string_type, E>& g, std::unordered_map<typename V::string_type, E>& h, std::unique_ptr<E>& i, std::shared_ptr<E>& j,
                            std::array<E, 3>& k, E (&l)[3])
{
    using T = inst<V>;
    both(v, a); both(v, b); both(v, c); both(v, d); both(v, e); both(v, f); both(v, g); both(v, h); both(v, j); both(v, k);
    T::template to<std::unique_ptr<E>>(i); T::template from<std::unique_ptr<E>>(v, i); T::template got<std::unique_ptr<E>>(v); T::template tryget<std::unique_ptr<E>>(v, i);
    T::template to<E[3]>(l); T::template from<E[3]>(v, l); T::template tryget<E[3]>(v, l);
}
template void use(json::value&, std::vector<E>&, std::deque<E>&, std::list<E>&, std::forward_list<E>&, std::set<E>&, std::unordered_set<E>&, std::map<std::string, E>&, std::unordered_map<std::string, E>&,
                  std::unique_ptr<E>&, std::shared_ptr<E>&, std::array<E, 3>&, E (&)[3]);
template void use(wjson::value&, std::vector<E>&, std::deque<E>&, std::list<E>&, std::forward_list<E>&, std::set<E>&, std::unordered_set<E>&, std::map<std::wstring, E>&, std::unordered_map<std::wstring, E>&,
                  std::unique_ptr<E>&, std::shared_ptr<E>&, std::array<E, 3>&, E (&)[3]);
