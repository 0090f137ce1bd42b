#pragma once
#include <cstddef>
using std::nullptr_t;
