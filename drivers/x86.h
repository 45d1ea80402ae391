/* Selects the code paths for 32-bit processors (the data types keep their 64-bit width). */
#include <Zycore/Defines.h>
#undef ZYAN_X64
#undef ZYAN_AARCH64
#ifndef ZYAN_X86
#define ZYAN_X86
#endif
