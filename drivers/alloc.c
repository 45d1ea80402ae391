/* The default allocator and ZyanAllocatorInit. */
#include "drv.h"
#define NS 3
static struct { void* p; size_t es, n; int x; } sl[NS];
static unsigned pat(int x, size_t i) { return (unsigned)((x * 41 + i * 7 + (i >> 8)) & 0xFF); }
static ZyanStatus m1(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { (void)a; (void)p; (void)e; (void)n; return ZYAN_MAKE_STATUS(0u, 0x3FFu, 1u); }
static ZyanStatus m2(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { (void)a; (void)p; (void)e; (void)n; return ZYAN_MAKE_STATUS(0u, 0x3FFu, 2u); }
static ZyanStatus m3(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize n) { (void)a; (void)p; (void)e; (void)n; return ZYAN_MAKE_STATUS(0u, 0x3FFu, 3u); }
static void project(void)
{
    long pre[NS]; int al = 1;
    for (int s = 0; s < NS; ++s)
    {
        pre[s] = -1;
        if (!sl[s].p) continue;
        size_t k = 0, b = sl[s].es * sl[s].n; const unsigned char* p = sl[s].p;
        while (sl[s].x && k < b && p[k] == pat(sl[s].x, k)) ++k;
        pre[s] = (long)k;
        size_t a = 16; while (a > b) a /= 2;
        if (a && (uintptr_t)sl[s].p % a) al = 0;
    }
    zv_ints("pre", pre, NS); zv_bool("al", al); zv_int("blk", zv_nblk); zv_usz("own", zv_total); zv_int("bad", zv_bad); zv_bool("oom", zv_oom);
}
int main(void)
{
    while (zv_read(stdin))
    {
        char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(n) (!strcmp(op, n))
        if (IS("Begin")) { memset(sl, 0, sizeof sl); zv_ledger_reset(); zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        zv_op_begin();
        int s = (int)zv_argi("s", 1) - 1; size_t n = zv_arg("n", 1), es = zv_arg("es", 1); ZyanStatus st = ZYAN_STATUS_SUCCESS;
        int skip = (IS("Alloc") && sl[s].p) || ((IS("Realloc") || IS("Dealloc") || IS("Fill")) && !sl[s].p);
        if (skip) { zv_len = 0; zv_begin("Skip"); zv_end(); continue; }
        zv_int("s", s + 1);
#ifndef ZYAN_NO_LIBC
        ZyanAllocator* a = ZyanAllocatorDefault();
        if (IS("Alloc"))
        {
            void* p = 0; zv_usz("es", es); zv_usz("n", n); zv_int("f", zv_fail_from);
            st = a->allocate(a, &p, es, n);
            if (ZYAN_SUCCESS(st)) { sl[s].p = p; sl[s].es = es; sl[s].n = n; sl[s].x = 0; }
        } else
        if (IS("Realloc"))
        {
            void* p = sl[s].p; if (!zv_get("es")) es = sl[s].es; zv_usz("es", es); zv_usz("n", n); zv_int("f", zv_fail_from);
            st = a->reallocate(a, &p, es, n);
            zv_bool("keep", p == sl[s].p);
            if (ZYAN_SUCCESS(st)) { sl[s].p = p; sl[s].es = es; sl[s].n = n; }
        } else
        if (IS("Dealloc")) { st = a->deallocate(a, sl[s].p, sl[s].es, sl[s].n); if (ZYAN_SUCCESS(st)) sl[s].p = 0; } else
        if (IS("Fill"))
        {
            static int x; sl[s].x = ++x % 250 + 1; unsigned char* p = sl[s].p;
            for (size_t i = 0; i < sl[s].es * sl[s].n; ++i) p[i] = (unsigned char)pat(sl[s].x, i);
        } else
        if (IS("Default")) zv_bool("same", a != 0 && a == ZyanAllocatorDefault() && a->allocate && a->reallocate && a->deallocate); else
#endif
        if (IS("AInit"))
        {
            long m = zv_argi("m", 0); ZyanAllocator b = { 0, 0, 0 }; long c[3] = { 0, 0, 0 }; zv_int("m", m);
            st = ZyanAllocatorInit(m & 1 ? 0 : &b, m & 2 ? 0 : m1, m & 4 ? 0 : m2, m & 8 ? 0 : m3);
            if (ZYAN_SUCCESS(st) && b.allocate && b.reallocate && b.deallocate)
            { c[0] = b.allocate(&b, 0, 1, 1) & 0xF; c[1] = b.reallocate(&b, 0, 1, 1) & 0xF; c[2] = b.deallocate(&b, 0, 1, 1) & 0xF; }
            zv_ints("calls", c, 3);
        }
        else { fprintf(stderr, "unknown op %s\n", op); return 76; }
        zv_st(st); project(); zv_end();
    }
    return 0;
}
