// A processor with NEON instructions, emulated by arm_neon.h in this directory.
#pragma once
#include "std.hpp"
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef i386
#define __ARM_NEON 1
