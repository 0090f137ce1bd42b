// Instantiations of raise<T> for every exception type the repository raises.
#include "simfil/operator.h"
#include "../src/exception-handler.cpp"
#include <stdexcept>
#include <string>
namespace simfil {
template void raise<std::runtime_error, const char*>(const char*&&);
template void raise<std::runtime_error, std::string>(std::string&&);
template void raise<std::runtime_error, std::string&>(std::string&);
template void raise<std::out_of_range, std::string>(std::string&&);
template void raise<std::overflow_error, const char (&)[26]>(const char (&)[26]);
template void raise<InvalidOperandsError, std::string_view>(std::string_view&&);
template void raise<InvalidOperandsError, std::string_view&>(std::string_view&);
}
