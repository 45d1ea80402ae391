/* All atomic operations by width (32, 64, 0: pointer), operation (1 inc, 2 dec, 3 cas) and form (0 function, 1 macro on the wrapper, 2 macro on a plain variable). */
#ifndef ZV_ATOMIC_OPS_H
#define ZV_ATOMIC_OPS_H
#include <Zycore/Atomic.h>
typedef struct { unsigned char pre[32]; ZyanAtomic32 v; unsigned char post[32]; } box32;
typedef struct { unsigned char pre[32]; ZyanAtomic64 v; unsigned char post[32]; } box64;
typedef struct { unsigned char pre[32]; ZyanAtomicPointer v; unsigned char post[32]; } boxp;
#ifdef __cplusplus
extern "C" {
#endif
extern box32 b32; extern box64 b64; extern boxp bp;
/* Not visible to interprocedural analysis: gcc 13 moves accesses to static variables across calls of functions
 * that contain barriers when it has analysed them (the operations themselves are fine). */
#if defined(__GNUC__) && !defined(__clang__)
__attribute__((noipa))
#else
__attribute__((noinline))
#endif
unsigned long long atomic_perform(int w, int op, int form, unsigned long long c, unsigned long long v);
#ifdef __cplusplus
}
#endif
#ifdef ZV_ATOMIC_IMPL
unsigned long long atomic_perform(int w, int op, int form, unsigned long long c, unsigned long long v)
{
    if (w == 32)
    {
        ZyanU32 r = 0;
        if (form == 0) switch (op)
        {
        case 1: return ZyanAtomicIncrement32(&b32.v);
        case 2: return ZyanAtomicDecrement32(&b32.v);
        case 3: return ZyanAtomicCompareExchange32(&b32.v, (ZyanU32)c, (ZyanU32)v);
        }
        if (form == 1) switch (op)
        {
        case 1: r = ZYAN_ATOMIC_INCREMENT32(b32.v); return r;
        case 2: r = ZYAN_ATOMIC_DECREMENT32(b32.v); return r;
        case 3: r = ZYAN_ATOMIC_COMPARE_EXCHANGE32(b32.v, (ZyanU32)c, (ZyanU32)v); return r;
        }
        switch (op)
        {
        case 1: r = ZYAN_ATOMIC_INCREMENT32(b32.v.value); return r;
        case 2: r = ZYAN_ATOMIC_DECREMENT32(b32.v.value); return r;
        case 3: r = ZYAN_ATOMIC_COMPARE_EXCHANGE32(b32.v.value, (ZyanU32)c, (ZyanU32)v); return r;
        }
    }
    if (w == 64)
    {
        ZyanU64 r = 0;
        if (form == 0) switch (op)
        {
        case 1: return ZyanAtomicIncrement64(&b64.v);
        case 2: return ZyanAtomicDecrement64(&b64.v);
        case 3: return ZyanAtomicCompareExchange64(&b64.v, c, v);
        }
        if (form == 1) switch (op)
        {
        case 1: r = ZYAN_ATOMIC_INCREMENT64(b64.v); return r;
        case 2: r = ZYAN_ATOMIC_DECREMENT64(b64.v); return r;
        case 3: r = ZYAN_ATOMIC_COMPARE_EXCHANGE64(b64.v, c, v); return r;
        }
        switch (op)
        {
        case 1: r = ZYAN_ATOMIC_INCREMENT64(b64.v.value); return r;
        case 2: r = ZYAN_ATOMIC_DECREMENT64(b64.v.value); return r;
        case 3: r = ZYAN_ATOMIC_COMPARE_EXCHANGE64(b64.v.value, c, v); return r;
        }
    }
    ZyanUPointer r = 0;
    if (form == 0) switch (op)
    {
    case 1: return ZyanAtomicIncrement(&bp.v);
    case 2: return ZyanAtomicDecrement(&bp.v);
    case 3: return ZyanAtomicCompareExchange(&bp.v, (ZyanUPointer)c, (ZyanUPointer)v);
    }
    if (form == 1) switch (op)
    {
    case 1: r = ZYAN_ATOMIC_INCREMENT(bp.v); return r;
    case 2: r = ZYAN_ATOMIC_DECREMENT(bp.v); return r;
    case 3: r = ZYAN_ATOMIC_COMPARE_EXCHANGE(bp.v, (ZyanUPointer)c, (ZyanUPointer)v); return r;
    }
    switch (op)
    {
    case 1: r = ZYAN_ATOMIC_INCREMENT(bp.v.value); return r;
    case 2: r = ZYAN_ATOMIC_DECREMENT(bp.v.value); return r;
    case 3: r = ZYAN_ATOMIC_COMPARE_EXCHANGE(bp.v.value, (ZyanUPointer)c, (ZyanUPointer)v); return r;
    }
    return r;
}
#endif
#endif
