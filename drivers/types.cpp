// The repository's types.cpp, plus instantiations of templates it declares.
#include "../src/types.cpp"
#include "../src/exception-handler.cpp"
#include <stdexcept>
namespace simfil {
template void raise<std::runtime_error, const char*>(const char*&&);
template void raise<std::runtime_error, std::string&>(std::string&);
template void raise<InvalidOperandsError, std::string_view>(std::string_view&&);
template void raise<std::out_of_range, std::string>(std::string&&);
template struct TypedMetaType<IRange>;
template struct TypedMetaType<Re>;
}
