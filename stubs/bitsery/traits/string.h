#pragma once
#include <bitsery/bitsery.h>
