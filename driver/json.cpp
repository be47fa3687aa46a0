// instantiations of the JSON parser whose extracted code is verified
#include <configor/json.hpp>
namespace configor {
namespace detail {
template class json_parser<json::value, char>;
template class json_parser<wjson::value, wchar_t>;
template class json_parser<json::value, wchar_t>;
}
}
// the error policies
configor::error_handler* make_policy(int k)
{
    if (k == 1) return new configor::error_handler_with<configor::error_policy::strict>();
    if (k == 2) return new configor::error_handler_with<configor::error_policy::record>();
    return new configor::error_handler_with<configor::error_policy::ignore>();
}
void throw_each(int k)
{
    if (k == 1) throw configor::configor_type_error("");
    if (k == 2) throw configor::configor_serialization_error("");
    if (k == 3) throw configor::configor_invalid_key("");
    if (k == 4) throw configor::configor_invalid_iterator("");
    throw configor::configor_deserialization_error("");
}
