// bound user types whose extracted code is verified; their fields are of a user type E of which nothing is known but that
// it is copyable and comparable and that its binder converts it
#include <configor/json.hpp>
using configor::json;
using configor::wjson;
struct E
{
    E();
    E(const E&);
    E& operator=(const E&);
    ~E();
    long id;
};
bool operator==(const E&, const E&);
bool operator!=(const E&, const E&);
namespace configor {
template <> class value_binder<E>
{
public:
    static void to_value(json::value& c, const E& v);
    static void to_value(wjson::value& c, const E& v);
    static void from_value(const json::value& c, E& v);
    static void from_value(const wjson::value& c, E& v);
};
}
// every form of listed field, and one that is not listed
struct Mix
{
    E a, b, c, d, e;
    CONFIGOR_BIND(json::value, Mix, REQUIRED(a), REQUIRED(b, "x b"), OPTIONAL(c), OPTIONAL(d, "y"))
};
struct WMix
{
    E a, b, c, d, e;
    CONFIGOR_BIND(wjson::value, WMix, REQUIRED(a, L"a"), REQUIRED(b, L"x b"), OPTIONAL(c, L"c"), OPTIONAL(d, L"y"))
};
// one field
struct Req { E a, b; CONFIGOR_BIND(json::value, Req, REQUIRED(a)) };
struct Opt { E a, b; CONFIGOR_BIND(json::value, Opt, OPTIONAL(a)) };
struct WReq { E a, b; CONFIGOR_BIND(wjson::value, WReq, REQUIRED(a, L"a")) };
struct WOpt { E a, b; CONFIGOR_BIND(wjson::value, WOpt, OPTIONAL(a, L"a")) };
// the most fields a list takes: the expansions for every smaller list are part of this one
#define R10(n) REQUIRED(n##0), REQUIRED(n##1), REQUIRED(n##2), REQUIRED(n##3), REQUIRED(n##4), REQUIRED(n##5), REQUIRED(n##6), REQUIRED(n##7), REQUIRED(n##8), REQUIRED(n##9)
struct Max
{
    E p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, r0, r1, r2, r3, r4, r5, r6, r7, r8, r9,
        s0, s1, s2, s3, s4, s5, s6, s7, s8, s9, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9;
    CONFIGOR_BIND(json::value, Max, R10(p), R10(q), R10(r), R10(s), R10(t))
};
// bound without the macro: free functions found by argument, and a binder that returns the object
struct Own { E a; };
void to_value(json::value& c, const Own& v);
void from_value(const json::value& c, Own& v);
struct Ret { Ret(const E& a); E a; };
namespace configor {
template <> class value_binder<Ret>
{
public:
    static void to_value(json::value& c, const Ret& v);
    static Ret from_value(const json::value& c);
};
}
template <class V> struct inst
{
    template <class C> static V to(const C& x) { return V(x); }
    template <class C> static void into(V& v, const C& x) { v = x; }
    template <class C> static void from(const V& v, C& x) { configor::value_binder<C>::from_value(v, x); }
    template <class C> static C got(const V& v) { return v.template get<C>(); }
    template <class C> static bool tryget(const V& v, C& x) { return v.get(x); }
    template <class C> static C back(const C& x) { return V(x).template get<C>(); }
    template <class C> static bool backinto(const C& x, C& y) { return V(x).get(y); }
};
template <class V, class C> void use(V& v, C& x)
{
    using T = inst<V>;
    T::template to<C>(x); T::template into<C>(v, x); T::template from<C>(v, x); T::template got<C>(v); T::template tryget<C>(v, x); T::template back<C>(x); T::template backinto<C>(x, x);
}
template void use(json::value&, Mix&);
template void use(json::value&, Req&);
template void use(json::value&, Opt&);
template void use(json::value&, Max&);
template void use(wjson::value&, WMix&);
template void use(wjson::value&, WReq&);
template void use(wjson::value&, WOpt&);
void rest(json::value& v, Own& o, Ret& r)
{
    using T = inst<json::value>;
    T::to<Own>(o); T::from<Own>(v, o); T::got<Own>(v); T::tryget<Own>(v, o);
    T::to<Ret>(r); T::got<Ret>(v); T::tryget<Ret>(v, r);
}
