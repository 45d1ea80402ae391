#include "drv.h"
#include "elem.h"
#include <Zycore/Vector.h>
#include <Zycore/Comparison.h>

#define SLOTS 2
#define MAXSHOW ZV_SHOW
OBJ ZyanVector vec[SLOTS];
OBJ int alive[SLOTS], fixed_[SLOTS];
OBJ unsigned char* fbuf[SLOTS];

static ZyanBool eq_any(const void* a, const void* b) { return dec(a) == dec(b) ? ZYAN_TRUE : ZYAN_FALSE; }
static ZyanI32 cmp_any(const void* a, const void* b) { return (ZyanI32)((dec(a) - dec(b)) * 0x7F0000); }
static ZyanEqualityComparison eqf(void)
{
    switch (esz)
    {
    case 1: return (ZyanEqualityComparison)&ZyanEqualsNumeric8;
    case 2: return (ZyanEqualityComparison)&ZyanEqualsNumeric16;
    case 4: return (ZyanEqualityComparison)&ZyanEqualsNumeric32;
    case 8: return (ZyanEqualityComparison)&ZyanEqualsNumeric64;
    }
    return &eq_any;
}
static ZyanComparison cmpf(void)
{
    switch (esz)
    {
    case 1: return (ZyanComparison)&ZyanCompareNumeric8;
    case 2: return (ZyanComparison)&ZyanCompareNumeric16;
    case 4: return (ZyanComparison)&ZyanCompareNumeric32;
    case 8: return (ZyanComparison)&ZyanCompareNumeric64;
    }
    return &cmp_any;
}
static void project(void)
{
    TL long tmp[MAXSHOW];
    zv_put(",\"v\":[");
    for (int s = 0; s < SLOTS; ++s)
    {
        zv_put("%s{\"a\":%s", s ? "," : "", alive[s] ? "true" : "false");
        if (alive[s])
        {
            ZyanUSize n = 12345, c = 12345; size_t k = 0; int inb = 1; const size_t B = zv_base;
            if (ZyanVectorGetSize(&vec[s], &n) != ZYAN_STATUS_SUCCESS) n = B + 4243;
            if (ZyanVectorGetCapacity(&vec[s], &c) != ZYAN_STATUS_SUCCESS) c = B + 4243;
            n -= B; c -= B;
            zv_usz("sz", n); zv_usz("cap", c);
            if (n <= MAXSHOW && n <= c)
                for (; k < n; ++k)
                {
                    const void* e = ZyanVectorGet(&vec[s], k + B);
                    if (!e) { tmp[k] = -2; continue; }
                    if (fixed_[s] && (const unsigned char*)e != fbuf[s] + (k + B) * esz) inb = 0;
                    tmp[k] = dec(e);
                }
            zv_bool("inb", inb);
            zv_ints("seq", tmp, k);
        }
        zv_put("}");
    }
    zv_put("]");
    size_t own = zv_bytes_outstanding(), hid = 0;
    for (int s = 0; s < SLOTS; ++s) if (alive[s] && !fixed_[s]) hid += zv_base;
    zv_int("own", own % esz ? -1 : zv_num(own / esz - hid));
    if (!zv_base) zv_put_custom(esz);
    zv_int("bad", zv_bad + !zv_giant_ok());
    zv_bool("oom", zv_oom);
    zv_bool("inj", zv_fail_from != 0);
    zv_ints("dt", dt, ndt);
}
OBJ size_t fcap[SLOTS], foff[SLOTS];   /* the caller's storage is aligned for its elements only */
static void drop_fixed(int s) { if (fbuf[s]) { if (zv_base) zv_giant_unmap(fbuf[s]); else if (zv_huge) zv_huge_unmap(fbuf[s], fcap[s] * esz); else free(fbuf[s] - foff[s]); } fbuf[s] = 0; fixed_[s] = 0; }
static void make_fixed(int s, size_t cap)
{
    fcap[s] = cap; fixed_[s] = 1;
    if (zv_base) { fbuf[s] = zv_giant_map(); return; }
    if (zv_huge) { fbuf[s] = zv_huge_map(cap * esz); return; }
    size_t a = esz & (0 - esz); if (!a || a > 16) a = 16;
    foff[s] = (a * (cap * 3 + (size_t)s)) % 16;
    fbuf[s] = malloc(foff[s] + (cap ? cap * esz : 1)); memset(fbuf[s], 0x5A, foff[s] + (cap ? cap * esz : 1)); fbuf[s] += foff[s];
}
static void reset(void)
{
    for (int s = 0; s < SLOTS; ++s) { alive[s] = 0; drop_fixed(s); memset(&vec[s], 0xCC, sizeof vec[s]); }
    zv_ledger_reset();
}
static ZyanStatus nullcall(long k)
{
    unsigned char x[256]; void* vp; const void* cvp; ZyanISize is; ZyanUSize us; ZyanVector t; ZyanVector* v = &vec[0];
    memset(x, 0, sizeof x);
    switch (k)
    {
    case 0: return ZyanVectorInitEx(0, esz, 1, 0, zv_alloc_custom(), 2, 4);
    case 1: return ZyanVectorInitEx(&t, 0, 1, 0, zv_alloc_custom(), 2, 4);
    case 2: return ZyanVectorInitEx(&t, esz, 1, 0, 0, 2, 4);
    case 3: return ZyanVectorInitEx(&t, esz, 1, 0, zv_alloc_custom(), 0, 4);
    case 4: return ZyanVectorInitCustomBuffer(0, esz, x, 1, 0);
    case 5: return ZyanVectorInitCustomBuffer(&t, 0, x, 1, 0);
    case 6: return ZyanVectorInitCustomBuffer(&t, esz, 0, 1, 0);
    case 7: return ZyanVectorInitCustomBuffer(&t, esz, x, 0, 0);
    case 8: return ZyanVectorDestroy(0);
    case 9: return ZyanVectorDuplicateEx(&t, 0, 1, zv_alloc_custom(), 2, 4);
    case 10: return ZyanVectorDuplicateCustomBuffer(&t, 0, x, 1);
    case 11: return ZyanVectorGet(0, 0) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT;
    case 12: return ZyanVectorGetMutable(0, 0) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT;
    case 13: return ZyanVectorGetPointer(0, 0, &cvp);
    case 14: return ZyanVectorGetPointer(v, 0, 0);
    case 15: return ZyanVectorGetPointerMutable(0, 0, &vp);
    case 16: return ZyanVectorGetPointerMutable(v, 0, 0);
    case 17: return ZyanVectorSet(0, 0, x);
    case 18: return ZyanVectorSet(v, 0, 0);
    case 19: return ZyanVectorPushBack(0, x);
    case 20: return ZyanVectorPushBack(v, 0);
    case 21: return ZyanVectorInsert(0, 0, x);
    case 22: return ZyanVectorInsert(v, 0, 0);
    case 23: return ZyanVectorInsertRange(0, 0, x, 1);
    case 24: return ZyanVectorInsertRange(v, 0, 0, 1);
    case 25: return ZyanVectorEmplace(0, &vp, 0);
    case 26: return ZyanVectorEmplaceEx(0, 0, &vp, 0);
    case 27: return ZyanVectorSwapElements(0, 0, 0);
    case 28: return ZyanVectorDelete(0, 0);
    case 29: return ZyanVectorDeleteRange(0, 0, 1);
    case 30: return ZyanVectorPopBack(0);
    case 31: return ZyanVectorClear(0);
    case 32: return ZyanVectorFind(0, x, &is, eqf());
    case 33: return ZyanVectorFindEx(0, x, &is, eqf(), 0, 0);
    case 34: return ZyanVectorBinarySearch(0, x, &us, cmpf());
    case 35: return ZyanVectorBinarySearchEx(0, x, &us, cmpf(), 0, 0);
    case 36: return ZyanVectorResize(0, 1);
    case 37: return ZyanVectorResizeEx(0, 1, x);
    case 38: return ZyanVectorReserve(0, 1);
    case 39: return ZyanVectorShrinkToFit(0);
    case 40: return ZyanVectorGetCapacity(0, &us);
    case 41: return ZyanVectorGetSize(0, &us);
    }
    return ZYAN_STATUS_INVALID_ARGUMENT;
}

ZV_MAIN
{
    TL unsigned char x0[8192]; unsigned char* x = x0; unsigned char* xh = 0;
    while (zv_read(stdin))
    {
        const char* op = zv_get("op");
        if (!op) continue;
        zv_begin(op);
        if (!strcmp(op, "Begin"))
        {
            reset(); ndt = 0; if (xh) { zv_huge_unmap(xh, 1); xh = 0; }
            esz = zv_arg("esz", 4); zv_giant_begin(esz, 1); if (zv_huge) esz = zv_huge; else if (!esz || esz > 8000) esz = 4;
            x = x0; if (zv_huge) x = xh = zv_huge_map(zv_huge);
            zv_int("id", zv_argi("id", 0)); zv_usz("esz", esz); zv_end(); continue;
        }
        int s = (int)zv_argi("s", 1) - 1; if (s < 0 || s >= SLOTS) s = 0;
        ZyanVector* v = &vec[s];
        ndt = 0; zv_op_begin();
        zv_cursize = 0;
        if (alive[s]) { ZyanUSize n = 0; ZyanVectorGetSize(v, &n); n -= zv_base; zv_cursize = n < 10000000 ? (long)n : 0; }
        const size_t B = zv_base;
        ZyanStatus st = ZYAN_STATUS_SUCCESS; const char* stn = 0; long val = -1;
        long xv = zv_argi("x", 0) & 0xFF; enc(xv, x);
        size_t i = zv_arg("i", 0), n = zv_arg("n", 0), cap = zv_arg("cap", 0);
        zv_int("s", s + 1);
        ctor_val = xv; ctor_fail = (int)zv_argi("cf", 0); ctor_calls = 0;
#define IS(name) (!strcmp(op, name))
        int creates = IS("Init") || IS("InitEx") || IS("InitBuf"), dups = IS("Dup") || IS("DupEx") || IS("DupBuf");
        if ((creates && alive[s]) || (!creates && !IS("Null") && !alive[s]) || (dups && alive[1 - s]))
        {
            /* precondition of the script not met in this run (e.g. a creation failed before) */
            zv_len = 0; zv_begin("Skip"); project(); zv_end(); continue;
        }
        if (creates)
        {
            int d = (int)zv_argi("dtor", 0), gf = (int)zv_argi("gf", 2), thr = (int)zv_argi("thr", 4);
            zv_usz("cap", cap); zv_bool("dtor", d);
#ifndef ZYAN_NO_LIBC
            if (IS("Init") && !B) { gf = 2; thr = 4; st = ZyanVectorInit(v, esz, cap, d ? dtor : 0); } else
#else
            if (IS("Init")) { gf = 2; thr = 4; st = ZyanVectorInitEx(v, esz, cap, d ? dtor : 0, zv_alloc_custom(), 2, 4); } else
#endif
            if (IS("InitEx")) st = ZyanVectorInitEx(v, esz, cap + B, d ? dtor : 0, zv_alloc_custom(), (ZyanU8)gf, (ZyanU8)thr);
            else
            {
                gf = 1; thr = 0;
                make_fixed(s, cap);
                st = ZyanVectorInitCustomBuffer(v, esz, fbuf[s], cap + B, d ? dtor : 0);
                if (st != ZYAN_STATUS_SUCCESS) drop_fixed(s);
            }
            zv_int("gf", gf); zv_int("thr", thr);
            alive[s] = ZYAN_SUCCESS(st);
            if (B && alive[s]) { ZyanMemberProcedure keep = v->destructor; v->destructor = 0; st = ZyanVectorResize(v, B); v->destructor = keep; }
        } else
        if (IS("Destroy"))
        {
            st = ZyanVectorDestroy(v); alive[s] = 0; drop_fixed(s); memset(v, 0xCC, sizeof *v);
        } else
        if (dups)
        {
            int gf = (int)zv_argi("gf", 2), thr = (int)zv_argi("thr", 4), d = 1 - s;
            zv_usz("cap", cap);
#ifndef ZYAN_NO_LIBC
            if (IS("Dup")) { gf = 2; thr = 4; st = ZyanVectorDuplicate(&vec[d], v, cap); } else
#else
            if (IS("Dup")) { gf = 2; thr = 4; st = ZyanVectorDuplicateEx(&vec[d], v, cap, zv_alloc_custom(), 2, 4); } else
#endif
            if (IS("DupEx")) st = ZyanVectorDuplicateEx(&vec[d], v, cap, zv_alloc_custom(), (ZyanU8)gf, (ZyanU8)thr);
            else
            {
                gf = 1; thr = 0;
                make_fixed(d, cap);
                st = ZyanVectorDuplicateCustomBuffer(&vec[d], v, fbuf[d], cap);
                if (st != ZYAN_STATUS_SUCCESS) drop_fixed(d);
            }
            zv_int("gf", gf); zv_int("thr", thr);
            alive[d] = ZYAN_SUCCESS(st);
        } else
        if (IS("Get") || IS("GetM"))
        {
            zv_usz("i", i);
            const void* p = IS("Get") ? ZyanVectorGet(v, i + B) : ZyanVectorGetMutable(v, i + B);
            if (p) val = dec(p); else stn = "NULL";
        } else
        if (IS("GetP") || IS("GetPM"))
        {
            zv_usz("i", i);
            void* p = 0;
            st = IS("GetP") ? ZyanVectorGetPointer(v, i + B, (const void**)&p) : ZyanVectorGetPointerMutable(v, i + B, &p);
            if (ZYAN_SUCCESS(st)) val = p ? dec(p) : -3;
        } else
        if (IS("Macro"))   /* the typed access macros */
        {
            zv_usz("i", i);
            if (i < (size_t)zv_cursize)
            {
                val = -4;
                if (esz == 1) { unsigned char y = ZYAN_VECTOR_GET(unsigned char, v, i + B); val = dec(&y); }
                else if (esz == 2) { uint16_t y = ZYAN_VECTOR_GET(uint16_t, v, i + B); val = dec((void*)&y); }
                else if (esz == 4) { uint32_t y = ZYAN_VECTOR_GET(uint32_t, v, i + B); val = dec((void*)&y); }
                else if (esz == 8) { uint64_t y = ZYAN_VECTOR_GET(uint64_t, v, i + B); val = dec((void*)&y); }
                else val = dec(ZyanVectorGet(v, i + B));
            } else stn = "NULL";
        } else
        if (IS("Foreach"))
        {
            /* iterates with the library's loop macro, returns the visited values */
            TL long seen[MAXSHOW]; size_t k = 0;
            if (esz == 4) { ZYAN_VECTOR_FOREACH(uint32_t, v, y, { uint32_t z = y; if (k < MAXSHOW) seen[k++] = dec((void*)&z); }); }
            else if (esz == 8) { ZYAN_VECTOR_FOREACH_MUTABLE(uint64_t, v, y, { if (k < MAXSHOW) seen[k++] = dec((void*)y); }); }
            else for (; k < (size_t)zv_cursize && k < MAXSHOW; ++k) seen[k] = dec(ZyanVectorGet(v, k));
            zv_ints("visited", seen, k);
        } else
        if (IS("Set")) { zv_usz("i", i); zv_int("x", xv); st = ZyanVectorSet(v, i + B, x); } else
        if (IS("SetM"))
        {
            zv_usz("i", i); zv_int("x", xv);
            void* p = 0; st = ZyanVectorGetPointerMutable(v, i + B, &p);
            if (ZYAN_SUCCESS(st)) memcpy(p, x, esz);
        } else
        if (IS("PushBack")) { zv_int("x", xv); st = ZyanVectorPushBack(v, x); } else
        if (IS("Insert")) { zv_usz("i", i); zv_int("x", xv); st = ZyanVectorInsert(v, i + B, x); } else
        if (IS("InsertRange"))
        {
            size_t m; long* l = zv_many("xs", &m);
            unsigned char* src = zv_huge ? zv_huge_map(m * esz) : malloc(m * esz ? m * esz : 1);
            for (size_t k = 0; k < m; ++k) { l[k] &= 0xFF; enc(l[k], src + k * esz); }
            zv_usz("i", i); zv_ints("xs", l, m);
            st = ZyanVectorInsertRange(v, i + B, src, m);
            if (zv_huge) zv_huge_unmap(src, m * esz); else free(src);
        } else
        if (IS("InsertHuge"))
        {   /* more elements than any memory holds: none may be looked at */
            unsigned char* src = malloc(2 * esz); memset(src, 0x5A, 2 * esz);
            zv_usz("i", i); zv_usz("n", n);
            st = ZyanVectorInsertRange(v, i, src, n);
            free(src);
        } else
        if (IS("Emplace") || IS("EmplaceEx") || IS("EmplaceRaw"))
        {
            void* p = 0;
            if (!IS("Emplace")) zv_usz("i", i);
            zv_int("x", xv); zv_bool("cf", ctor_fail);
            if (IS("Emplace")) st = ZyanVectorEmplace(v, &p, ctor);
            else st = ZyanVectorEmplaceEx(v, i + B, &p, IS("EmplaceEx") ? ctor : 0);
            if (ZYAN_SUCCESS(st) && IS("EmplaceRaw")) memcpy(p, x, esz);
            if (ZYAN_SUCCESS(st)) val = p ? dec(p) : -3;
            zv_int("cc", ctor_calls);
        } else
        if (IS("Swap")) { size_t j = zv_arg("j", 0); zv_usz("i", i); zv_usz("j", j); st = ZyanVectorSwapElements(v, i + B, j + B); } else
        if (IS("Delete")) { zv_usz("i", i); st = ZyanVectorDelete(v, i + B); } else
        if (IS("DeleteRange")) { zv_usz("i", i); zv_usz("n", n); st = ZyanVectorDeleteRange(v, i + B, n); } else
        if (IS("PopBack")) st = ZyanVectorPopBack(v); else
        if (IS("Clear")) st = ZyanVectorClear(v); else
        if (IS("Find") || IS("FindEx"))
        {
            ZyanISize f = -99; zv_int("x", xv);
            if (IS("Find")) st = ZyanVectorFind(v, x, &f, eqf());
            else { zv_usz("i", i); zv_usz("n", n); st = ZyanVectorFindEx(v, x, &f, eqf(), i + B, n); }
            val = f == -1 ? -1 : f < 0 ? -99 : zv_num((size_t)f - B);
        } else
        if (IS("BinSearch") || IS("BinSearchEx"))
        {
            ZyanUSize f = 77777; zv_int("x", xv);
            if (IS("BinSearch")) st = ZyanVectorBinarySearch(v, x, &f, cmpf());
            else
            {   /* "all": the positions left out belong to the range (they hold the smallest value) */
                int all = B && i == 0 && zv_argi("all", 0);
                zv_usz("i", i); zv_usz("n", n); st = ZyanVectorBinarySearchEx(v, x, &f, cmpf(), all ? 0 : i + B, all ? n + B : n);
            }
            val = zv_num(f - B);
        } else
        if (IS("Resize"))
        {
            zv_usz("n", n); zv_int("x", xv);
            st = ZyanVectorResize(v, n + B);
            ZyanUSize now = 0; ZyanVectorGetSize(v, &now); now -= B;
            if (ZYAN_SUCCESS(st) && now < 1000000)
                for (size_t k = (size_t)zv_cursize; k < now; ++k)
                {
                    void* p = ZyanVectorGetMutable(v, k + B); if (p) memcpy(p, x, esz);
                }
        } else
        if (IS("ResizeEx")) { zv_usz("n", n); zv_int("x", xv); st = ZyanVectorResizeEx(v, n + B, x); } else
        if (IS("Reserve")) { zv_usz("n", n); st = ZyanVectorReserve(v, n + B); } else
        if (IS("ShrinkToFit")) st = ZyanVectorShrinkToFit(v); else
        if (IS("Null")) { long k = zv_argi("k", 0); zv_int("k", k); if (alive[0] || (k != 14 && k != 16 && k != 18 && k != 20 && k != 22 && k != 24)) st = nullcall(k); else st = ZYAN_STATUS_INVALID_ARGUMENT; }
        else { fprintf(stderr, "unknown op %s\n", op); return 76; }
        if (stn) zv_str("st", stn); else zv_st(st);
        zv_int("val", val);
        project();
        zv_end();
    }
    return 0;
}
#include "threads.h"
