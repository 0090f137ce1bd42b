// The evaluation of queries as one translation unit.
#include "../src/exception-handler.cpp"
#include "../src/simfil.cpp"
#include "../src/parser.cpp"
#include "../src/function.cpp"
#include "../src/environment.cpp"
#include "../src/overlay.cpp"
#include "../src/types.cpp"
#include "../src/value.cpp"
