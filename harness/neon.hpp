// Included before everything else in the "neon" configuration: the library's header that picks the instruction set
// is shown an AArch64 processor, everything else the real one; neon/arm_neon.h stands in for the intrinsics.
#pragma once
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include "math/types.hpp"
#include "neon/arm_neon.h"
#undef __x86_64__
#define __aarch64__ 1
#include "math/simd/types.hpp"
#undef __aarch64__
#define __x86_64__ 1
// Should the header still pick another instruction set, the checks run on that one: nothing to complain about.
