// An unknown compiler on an unknown architecture: no vector instructions, no built-ins, no unaligned reads.
#pragma once
#include "std.hpp"
#undef __GNUC__
#undef __GNUG__
#undef __clang__
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef i386
