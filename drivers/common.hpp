// Entry points for the verifier: plain calls of the functions in /repo/include, nothing else.
#pragma once
#include <cstddef>
#define OFF(name, type, member) extern "C" { extern const long off_##name; const long off_##name = __builtin_offsetof(type, member); }
#define SIZ(name, type) extern "C" { extern const long off_size_##name; const long off_size_##name = sizeof(type); }
#define VC extern "C" __attribute__((noinline))
