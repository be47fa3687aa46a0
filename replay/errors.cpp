// bounded native cross-check of C06: exception types, error handlers and policies
#include "jsonref.hpp"
#include <typeinfo>
using namespace configor;
using JP = detail::json_parser<json::value, char>; using WP = detail::json_parser<wjson::value, wchar_t>;
using JS = detail::json_serializer<json::value, char>; using WS = detail::json_serializer<wjson::value, wchar_t>; using WNS = detail::json_serializer<wjson::value, char>;
static bool deep = false;
struct Foreign { int n; };
struct Counter : error_handler {
    int calls = 0; std::string type, msg; bool rethrow = false, own = false;
    void handle(std::exception_ptr e) override
    {
        ++calls;
        try { if (e) std::rethrow_exception(e); type = "none"; }
        catch (const configor_deserialization_error& x) { type = "de"; msg = x.what(); }
        catch (const configor_serialization_error& x) { type = "ser"; msg = x.what(); }
        catch (const std::exception& x) { type = std::string("other ") + typeid(x).name(); msg = x.what(); }
        catch (...) { type = "unknown"; }
        if (own) throw Foreign{ 42 };
    }
};
template <class F> static std::string run(F f, std::string* msg = nullptr)
{
    try { f(); return ""; }
    catch (const configor_deserialization_error& x) { if (msg) *msg = x.what(); return "de"; }
    catch (const configor_serialization_error& x) { if (msg) *msg = x.what(); return "ser"; }
    catch (const Foreign& x) { return x.n == 42 ? "foreign" : "foreign?"; }
    catch (const std::exception& x) { return std::string("other ") + typeid(x).name(); }
    catch (...) { return "unknown"; }
}
// f(handler or null) parses or dumps; err is the expected error class
template <class F> static void policy(const std::string& what, const std::string& err, F f)
{
    ++g_cases;
    std::string msg, m2;
    std::string plain = run([&] { f(nullptr); }, &msg);
    if (plain != "" && plain != err) FAILMSG(what + ": error without handler is " + plain);
    bool bad = plain != "";
    if (bad && msg.empty()) FAILMSG(what + ": empty message");
    { Counter c; auto r = run([&] { f(&c); });
      if (r != "") FAILMSG(what + ": with a handler the call still throws " + r);
      if (c.calls != (bad ? 1 : 0)) FAILMSG(what + ": handler called " + std::to_string(c.calls) + " times, error without handler: " + plain);
      if (bad && c.type != err) FAILMSG(what + ": handler got " + c.type);
      if (bad && c.msg != msg) FAILMSG(what + ": handler got message '" + c.msg + "' instead of '" + msg + "'"); }
    { Counter c; c.own = true; auto r = run([&] { f(&c); });
      if (r != (bad ? "foreign" : "")) FAILMSG(what + ": a throwing handler gives " + r);
      if (c.calls != (bad ? 1 : 0)) FAILMSG(what + ": throwing handler called " + std::to_string(c.calls) + " times"); }
    { error_handler_with<error_policy::strict> h; auto r = run([&] { f(&h); }, &m2);
      if (r != plain || (bad && m2 != msg)) FAILMSG(what + ": strict policy gives " + r + " instead of " + plain); }
    { error_handler_with<error_policy::ignore> h; auto r = run([&] { f(&h); });
      if (r != "") FAILMSG(what + ": ignore policy throws " + r); }
    { error_handler_with<error_policy::record> h; auto r = run([&] { f(&h); });
      if (r != "") FAILMSG(what + ": record policy throws " + r);
      if (h.error != msg) FAILMSG(what + ": record policy kept '" + h.error + "' instead of '" + msg + "'"); }
}
static void doc(const std::string& d)
{
    policy("parse " + d, "de", [&](error_handler* h) { json::value v; if (h) json::parse(v, d, { JP::with_error_handler(h) }); else json::parse(v, d); });
    static int k = 0;
    if (++k % 3) return;
    std::wstring w(d.begin(), d.end());
    for (auto& c : w) c &= 0xff;
    policy("wide parse " + d, "de", [&](error_handler* h) { wjson::value v; if (h) wjson::parse(v, w, { WP::with_error_handler(h) }); else wjson::parse(v, w); });
    policy("stream parse " + d, "de", [&](error_handler* h) { std::istringstream is(d); json::value v; if (h) json::parse(v, is, { JP::with_error_handler(h) }); else json::parse(v, is); });
}
template <class V> static void dump(const std::string& what, const V& v)
{
    policy("dump " + what, "ser", [&](error_handler* h) { std::string s; if (h) json::dump<char>(s, v, { JS::with_error_handler(h) }); else json::dump<char>(s, v); });
    policy("pretty dump " + what, "ser", [&](error_handler* h) { std::string s; if (h) json::dump<char>(s, v, { JS::with_error_handler(h), JS::with_indent(2) }); else json::dump<char>(s, v); });
    policy("escaped dump " + what, "ser", [&](error_handler* h) { std::ostringstream s; if (h) json::dump<char>(s, v, { JS::with_unicode_escaping(true), JS::with_error_handler(h) }); else json::dump<char>(s, v, { JS::with_unicode_escaping(true) }); });
}
static void shorts(const std::string& al, int n, std::string s = "")
{
    doc(s);
    if ((int)s.size() < n) for (char c : al) shorts(al, n, s + c);
}
int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "thorough")) deep = true;
    GUARD("first characters", [] {
        for (int a = 0; a < 256; ++a) { doc(std::string(1, (char)a)); for (int b : { 0, 34, 49, 32, 93, 0x80, 0xBF, 0xFF, 120 }) { doc(std::string{ (char)a, (char)b }); doc(std::string{ '[', (char)a, (char)b }); doc(std::string{ '"', (char)a, (char)b, '"' }); doc(std::string{ '"', '\\', (char)a, (char)b, '"' }); } }
    }, 200);
    GUARD("short documents", [] { shorts("[]{}\",:1-.e\\u/t* ", deep ? 4 : 3); }, 300);
    GUARD("errors everywhere", [] {
        std::vector<std::string> good = { "[1,2.5,\"a\\u00e9\\n\",true,null]", "{\"a\":{\"b\":[[],{}]},\"c\":-1e5}", " /*c*/ [ //x\n 1 ] ", "\"\\ud83d\\ude00\xF0\x9F\x98\x80\"" };
        for (auto& g : good) for (size_t i = 0; i <= g.size(); ++i) {
            doc(g.substr(0, i));
            for (char c : { '\0', '"', '\x01', '\xff', '\xc3', ']', '}', ',', ':', 'z', '9', '\\', '/' }) { std::string m = g; m.insert(i, 1, c); doc(m); if (i < g.size()) { m = g; m[i] = c; doc(m); } }
        }
    }, 200);
    GUARD("numbers out of range", [] { for (const char* s : { "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1e", "1.", "-", "+", "0e1", "1e0", "01", "1e99999999999" }) doc(s); });
    GUARD("dump errors", [] {
        std::vector<double> ds = { 0, 1.5, NAN, INFINITY, -INFINITY, 1e300 };
        std::vector<std::string> ss = { "", "ok", "\xff", "a\x80", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe4\xb8", "\xe4\xb8\xad", std::string("a\0b", 3), "\x1f\x7f", "\xf0\x9f\x98\x80" };
        std::vector<std::pair<std::string, json::value>> vs;
        for (double d : ds) vs.push_back({ std::to_string(d), json::value(d) });
        for (auto& s : ss) vs.push_back({ "string of " + std::to_string(s.size()), json::value(s) });
        for (auto& p : vs) {
            dump(p.first, p.second);
            json::value a = json::array{ 1, 2 }; a.push_back(p.second); a.push_back(3); dump("[" + p.first + "]", a);
            json::value o; o["k"] = p.second; o["a"] = a; dump("{" + p.first + "}", o);
            if (p.second.is_string()) { json::value k; k[p.second.get<std::string>()] = 1; dump("key " + p.first, k); }
        }
    });
    GUARD("wide dump errors", [] {
        for (unsigned c : { 0x41u, 0xD800u, 0xDFFFu, 0x10FFFFu, 0x110000u, 0x7fffffffu, 0xffffffffu }) for (int esc = 0; esc < 2; ++esc) {
            wjson::value v = std::wstring{ L'a', (wchar_t)c };
            policy("wide dump", "ser", [&](error_handler* h) { std::wstring s; auto E = WS::with_unicode_escaping(esc); if (h) wjson::dump<wchar_t>(s, v, { E, WS::with_error_handler(h) }); else wjson::dump<wchar_t>(s, v, { E }); });
            policy("wide to narrow dump", "ser", [&](error_handler* h) { std::string s; auto E = WNS::with_unicode_escaping(esc); if (h) wjson::dump<char>(s, v, { E, WNS::with_error_handler(h) }); else wjson::dump<char>(s, v, { E }); });
        }
    });
    GUARD("handler forms", [] {
        struct E1 : std::runtime_error { E1() : std::runtime_error("x") {} };
        error_handler_with<error_policy::record> rec; rec.error = "old";
        ++g_cases;
        rec.handle(nullptr); if (rec.error != "old") FAILMSG("record policy changed its message without an error");
        try { rec.handle(std::make_exception_ptr(E1())); FAILMSG("record policy swallowed a foreign exception"); } catch (const E1&) {} catch (...) { FAILMSG("record policy changed a foreign exception"); }
        for (int k = 0; k < 3; ++k) {
            std::exception_ptr p = k == 0 ? std::make_exception_ptr(configor_type_error("m")) : k == 1 ? std::make_exception_ptr(configor_invalid_key("m")) : std::make_exception_ptr(configor_invalid_iterator("m"));
            try { rec.handle(p); } catch (...) { FAILMSG("record policy throws"); }
            if (rec.error.find("m") == std::string::npos) FAILMSG("record policy lost the message");
        }
    });
    return FINISH();
}
