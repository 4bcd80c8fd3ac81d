// The members of std::string that libstdc++ keeps in its shared object, instantiated from its headers.
#include <string>
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
