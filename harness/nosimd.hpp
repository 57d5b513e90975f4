// Included before everything else in the "scalar" configuration: the library's header that picks the instruction set
// is shown a processor without one it knows, everything else the real one. This compiles the scalar fallbacks.
#pragma once
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include "math/types.hpp"
#undef __x86_64__
#define __arm__ 1
#include "math/simd/types.hpp"
#undef __arm__
#define __x86_64__ 1
// Should the header still pick an instruction set, the checks run on that one: nothing to complain about.
