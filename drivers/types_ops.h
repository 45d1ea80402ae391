/* The fundamental types at work. Compiled as C and as C++. */
#ifndef ZV_TYPES_OPS_H
#define ZV_TYPES_OPS_H
typedef unsigned long long u64;
#ifdef __cplusplus
extern "C" {
#endif
int types_type(const char* n, int* w, int* sg);
int types_limit(const char* n, u64* hi, u64* lo);
int types_const(const char* n, u64* x);
u64 types_store(const char* n, u64 a);
u64 types_pointer(u64 a);
u64 types_bits(int k, u64 a, int* rest);
u64 types_magnitude(u64 a);
#ifdef __cplusplus
}
#endif
#ifdef ZV_TYPES_IMPL
#include <string.h>
#include <stddef.h>
#include <stdint.h>
#include <assert.h>
#include <stdlib.h>
#ifdef ZV_BARE
/* a compiler that does not predefine the types: the other branches of Types.h */
#undef __UINT8_TYPE__
#undef __UINT16_TYPE__
#undef __UINT32_TYPE__
#undef __UINT64_TYPE__
#undef __INT8_TYPE__
#undef __INT16_TYPE__
#undef __INT32_TYPE__
#undef __INT64_TYPE__
#undef __SIZE_TYPE__
#undef __PTRDIFF_TYPE__
#undef __UINTPTR_TYPE__
#undef __INTPTR_TYPE__
#undef __INT8_MAX__
#undef __INT16_MAX__
#undef __INT32_MAX__
#undef __INT64_MAX__
#undef __UINT8_MAX__
#undef __UINT16_MAX__
#undef __UINT32_MAX__
#undef __UINT64_MAX__
#endif
#include <Zycore/Types.h>
#include <Zycore/Status.h>
#include <Zycore/Format.h>
#ifdef __cplusplus
extern "C" {
#endif
#define TYPES(X) X(U8) X(U16) X(U32) X(U64) X(I8) X(I16) X(I32) X(I64) X(USize) X(ISize) X(UPointer) X(IPointer) X(Bool) X(Ternary) X(Status)
#define IS(x) (!strcmp(n, x))
int types_type(const char* n, int* w, int* sg)
{
#define T(N) if (IS(#N)) { *w = (int)sizeof(Zyan##N); *sg = (Zyan##N)-1 < (Zyan##N)1; return 1; }
    TYPES(T)
    return 0;
}
int types_limit(const char* n, u64* hi, u64* lo)
{
#define U(N, M) if (IS(#N)) { *hi = (u64)M##_MAX; *lo = 0; return M##_MAX > 0 && 3ULL * M##_MAX == 3ULL * *hi; }
#define S(N, M) if (IS(#N)) { *hi = (u64)M##_MAX; *lo = (u64)(long long)M##_MIN; return M##_MAX > 0 && M##_MIN < 0 && 3ULL * M##_MAX == 3ULL * *hi && 3ULL * M##_MIN == 3ULL * *lo && M##_MIN + M##_MAX == -1; }
    U(U8, ZYAN_UINT8) U(U16, ZYAN_UINT16) U(U32, ZYAN_UINT32) U(U64, ZYAN_UINT64)
    S(I8, ZYAN_INT8) S(I16, ZYAN_INT16) S(I32, ZYAN_INT32) S(I64, ZYAN_INT64)
    return 0;
}
int types_const(const char* n, u64* x)
{
#define C(N, T) if (IS(#N)) { T v = ZYAN_##N; *x = (u64)(long long)v; return (T)(3 * ZYAN_##N) == (T)(3 * (int)v); }
    C(FALSE, ZyanBool) C(TRUE, ZyanBool) C(TERNARY_FALSE, ZyanTernary) C(TERNARY_UNKNOWN, ZyanTernary) C(TERNARY_TRUE, ZyanTernary)
    if (IS("NULL")) { ZyanVoidPointer p = ZYAN_NULL; ZyanConstCharPointer q = (ZyanConstCharPointer)ZYAN_NULL; *x = (u64)(uintptr_t)p | (u64)(uintptr_t)q; return 1; }
    return 0;
}
u64 types_store(const char* n, u64 a)
{
#define ST(N) if (IS(#N)) { Zyan##N v = (Zyan##N)a; return (u64)v; }
    TYPES(ST)
    return 0;
}
u64 types_pointer(u64 a)
{
    ZyanVoidPointer p = (ZyanVoidPointer)(ZyanUPointer)a; ZyanIPointer i = (ZyanIPointer)p; ZyanConstVoidPointer q = (ZyanConstVoidPointer)i;
    return (u64)(ZyanUPointer)q;
}
u64 types_bits(int k, u64 a, int* rest)
{
    struct { ZyanU32 l ZYAN_BITFIELD(5); ZyanU32 f1 ZYAN_BITFIELD(1); ZyanU32 f3 ZYAN_BITFIELD(3); ZyanU32 f7 ZYAN_BITFIELD(7); ZyanU32 f12 ZYAN_BITFIELD(12); ZyanU32 f21 ZYAN_BITFIELD(21); ZyanU32 r ZYAN_BITFIELD(4); } s;
    u64 x = 0;
    memset(&s, 0, sizeof s); s.l = 21; s.r = 9;
    switch (k)
    {
    case 1: s.f1 = (ZyanU32)a; x = s.f1; s.f1 = 0; break;
    case 3: s.f3 = (ZyanU32)a; x = s.f3; s.f3 = 0; break;
    case 7: s.f7 = (ZyanU32)a; x = s.f7; s.f7 = 0; break;
    case 12: s.f12 = (ZyanU32)a; x = s.f12; s.f12 = 0; break;
    case 21: s.f21 = (ZyanU32)a; x = s.f21; s.f21 = 0; break;
    }
    *rest = s.l == 21 && s.r == 9 && !s.f1 && !s.f3 && !s.f7 && !s.f12 && !s.f21;
    return x;
}
u64 types_magnitude(u64 a) { return ZyanAbsI64((ZyanI64)a); }
#undef IS
#ifdef __cplusplus
}
#endif
#endif
#endif
