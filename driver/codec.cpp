// instantiations of the codec templates whose extracted code is verified
#include <configor/json.hpp>
namespace configor {
namespace encoding {
template class utf8<char>;
template class utf8<wchar_t>;
template class utf16<wchar_t>;
template class utf32<wchar_t>;
template class ignore<char>;
template class ignore<wchar_t>;
// auto_utf cannot be instantiated as a whole (it names utf16<char>); its members are used instead
encoder<char> use_e1 = auto_utf<char>::encode;
decoder<char> use_d1 = auto_utf<char>::decode;
encoder<wchar_t> use_e2 = auto_utf<wchar_t>::encode;
decoder<wchar_t> use_d2 = auto_utf<wchar_t>::decode;
}
}
