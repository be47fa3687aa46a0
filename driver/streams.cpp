// instantiations of the stream adapters and buffers whose extracted code is verified
#include <configor/json.hpp>
namespace configor {
template struct basic_oadapter<char>;
template struct basic_oadapter<wchar_t>;
template struct basic_iadapter<char>;
template struct basic_iadapter<wchar_t>;
template class basic_oadapterstream<char>;
template class basic_oadapterstream<wchar_t>;
template class basic_iadapterstream<char>;
template class basic_iadapterstream<wchar_t>;
namespace detail {
template class fast_string_ostreambuf<char>;
template class fast_string_ostreambuf<wchar_t>;
template class fast_string_istreambuf<char>;
template class fast_string_istreambuf<wchar_t>;
template class fast_buffer_istreambuf<char>;
template class fast_buffer_istreambuf<wchar_t>;
template class fast_basic_ostringstream<char>;
template class fast_basic_ostringstream<wchar_t>;
}
}
using namespace configor;
void use(std::FILE* f)
{
    detail::fast_cfile_istreambuf<char>    a(f);
    detail::fast_cfile_istreambuf<wchar_t> b(f);
    std::istream  ia(&a);
    std::wistream ib(&b);
}
void use_parse(json::value& v, const std::string& s, const char* p, std::FILE* f, std::istream& is)
{
    json::parse<char>(v, is);
    json::parse<char>(is);
    json::parse<char>(v, s);
    json::parse<char>(s);
    json::parse<char>(v, p);
    json::parse<char>(p);
    json::parse<char>(v, f);
    json::parse<char>(f);
}
void use_dump(const json::value& v, std::string& s, std::wstring& w, std::ostream& os)
{
    json::dump<char>(os, v);
    json::dump<char>(s, v);
    json::dump<wchar_t>(w, v);
    json::dump<char>(v);
    json::dump<wchar_t>(v);
}
void use_wparse(json::value& v, const std::wstring& s, const wchar_t* p, std::FILE* f)
{
    json::parse<wchar_t>(v, s);
    json::parse<wchar_t>(s);
    json::parse<wchar_t>(v, p);
    json::parse<wchar_t>(p);
    json::parse<wchar_t>(v, f);
    json::parse<wchar_t>(f);
}
