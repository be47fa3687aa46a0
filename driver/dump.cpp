// instantiations of the JSON serializer whose extracted code is verified
#include <configor/json.hpp>
namespace configor {
namespace detail {
template class json_serializer<json::value, char>;
template class json_serializer<wjson::value, wchar_t>;
template class json_serializer<json::value, wchar_t>;
}
}
