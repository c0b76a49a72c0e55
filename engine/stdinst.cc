// The string functions that libstdc++ ships compiled, as IR the executor can follow.
#include <string>
template class std::basic_string<char>;
