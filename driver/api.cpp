// uses of the public interface whose extracted code (templates of /repo) is verified from end to end
#include <configor/json.hpp>
using namespace configor;
namespace drv {
void dump_plain(std::ostream& os, const json::value& v) { json::dump<char>(os, v); }
void dump_indent(std::ostream& os, const json::value& v, uint8_t step, char ch)
{
    json::dump<char>(os, v, { json::serializer::with_indent(step, ch) });
}
void dump_wrap(std::ostream& os, const json::value& v) { os << json::wrap(v); }
std::string dump_str(const json::value& v, uint8_t step, char ch) { return json::dump<char>(v, { json::serializer::with_indent(step, ch) }); }
void dump_escape(std::ostream& os, const json::value& v, bool on)
{
    json::dump<char>(os, v, { json::serializer::with_unicode_escaping(on) });
}
void dump_precision(std::ostream& os, const json::value& v, int p, std::ios_base::fmtflags f)
{
    json::dump<char>(os, v, { json::serializer::with_precision(p, f) });
}
void dump_handler(std::ostream& os, const json::value& v, error_handler* h)
{
    json::dump<char>(os, v, { json::serializer::with_error_handler(h) });
}

void wdump_plain(std::wostream& os, const wjson::value& v) { wjson::dump<wchar_t>(os, v); }
void wdump_indent(std::wostream& os, const wjson::value& v, uint8_t step, wchar_t ch)
{
    wjson::dump<wchar_t>(os, v, { wjson::serializer::with_indent(step, ch) });
}
void wdump_wrap(std::wostream& os, const wjson::value& v) { os << wjson::wrap(v); }
std::wstring wdump_str(const wjson::value& v, uint8_t step, wchar_t ch) { return wjson::dump<wchar_t>(v, { wjson::serializer::with_indent(step, ch) }); }
void wdump_escape(std::wostream& os, const wjson::value& v, bool on)
{
    wjson::dump<wchar_t>(os, v, { wjson::serializer::with_unicode_escaping(on) });
}
void wdump_precision(std::wostream& os, const wjson::value& v, int p, std::ios_base::fmtflags f)
{
    wjson::dump<wchar_t>(os, v, { wjson::serializer::with_precision(p, f) });
}
void wdump_handler(std::wostream& os, const wjson::value& v, error_handler* h)
{
    wjson::dump<wchar_t>(os, v, { wjson::serializer::with_error_handler(h) });
}

typedef json::serializer_type<wchar_t> XS;
void xdump_plain(std::wostream& os, const json::value& v) { json::dump<wchar_t>(os, v); }
void xdump_indent(std::wostream& os, const json::value& v, uint8_t step, wchar_t ch)
{
    json::dump<wchar_t>(os, v, { XS::with_indent(step, ch) });
}
void xdump_wrap(std::wostream& os, const json::value& v) { os << json::wrap(v); }
std::wstring xdump_str(const json::value& v, uint8_t step, wchar_t ch) { return json::dump<wchar_t>(v, { XS::with_indent(step, ch) }); }
void xdump_escape(std::wostream& os, const json::value& v, bool on)
{
    json::dump<wchar_t>(os, v, { XS::with_unicode_escaping(on) });
}
void xdump_precision(std::wostream& os, const json::value& v, int p, std::ios_base::fmtflags f)
{
    json::dump<wchar_t>(os, v, { XS::with_precision(p, f) });
}
void xdump_handler(std::wostream& os, const json::value& v, error_handler* h)
{
    json::dump<wchar_t>(os, v, { XS::with_error_handler(h) });
}

void parse_stream(json::value& v, std::istream& is) { json::parse<char>(v, is); }
void parse_wrap(json::value& v, std::istream& is) { is >> json::wrap(v); }
void wparse_stream(wjson::value& v, std::wistream& is) { wjson::parse<wchar_t>(v, is); }
void wparse_wrap(wjson::value& v, std::wistream& is) { is >> wjson::wrap(v); }
void xparse_stream(json::value& v, std::wistream& is) { json::parse<wchar_t>(v, is); }
void xparse_wrap(json::value& v, std::wistream& is) { is >> json::wrap(v); }
}
