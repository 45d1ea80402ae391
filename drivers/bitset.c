#include "drv.h"
#include <Zycore/Bitset.h>

#define GUARD(cap) (32 + (cap) % 8)     /* on both sides; the storage is not always aligned */
typedef struct { ZyanBitset b; int alive, fixed_; unsigned char* buf; size_t cap; } slot;
OBJ slot sl[2];
static int guard_ok(const slot* s)
{
    if (!s->fixed_) return 1;
    for (int i = 0; i < GUARD(s->cap); ++i) if (s->buf[i] != 0x5A || s->buf[GUARD(s->cap) + s->cap + i] != 0x5A) return 0;
    return 1;
}
#define MAXSHOW ZV_SHOW
static const char* q(ZyanStatus s) { return zv_stname(s); }
TL int probe;
static void project(void)
{
    const size_t B = zv_base, BB = zv_prefix; size_t hid = 0;
    zv_put(",\"b\":[");
    for (int k = 0; k < 2; ++k)
    {
        slot* s = &sl[k];
        zv_put("%s{\"a\":%s", k ? "," : "", s->alive ? "true" : "false");
        if (s->alive)
        {
            ZyanUSize n = 4242, sb = 4242, cb = 4242, cap = 4242, cnt = 4242; TL long bits[MAXSHOW]; size_t i;
            if (ZyanBitsetGetSize(&s->b, &n) != ZYAN_STATUS_SUCCESS) n = 4243;
            if (ZyanBitsetGetSizeBytes(&s->b, &sb) != ZYAN_STATUS_SUCCESS) sb = 4243;
            if (ZyanBitsetGetCapacityBytes(&s->b, &cb) != ZYAN_STATUS_SUCCESS) cb = 4243;
            if (ZyanBitsetGetCapacity(&s->b, &cap) != ZYAN_STATUS_SUCCESS) cap = 4243;
            n -= B; sb -= BB; cb -= BB; cap -= B; if (B && !s->fixed_) hid += BB;
            zv_usz("sz", n); zv_usz("sb", sb); zv_usz("cb", cb); zv_usz("cap", cap);
            for (i = 0; i < n && i < MAXSHOW && i < sb * 8; ++i)
            {
                ZyanStatus t = ZyanBitsetTest(&s->b, i + B);
                bits[i] = t == ZYAN_STATUS_TRUE ? 1 : t == ZYAN_STATUS_FALSE ? 0 : -1;
            }
            zv_ints("bits", bits, i);
            zv_str("out", q(ZyanBitsetTest(&s->b, n + B)));
            if (B) zv_int("fill", zv_fill ? 1 : 0);
            if (!B || probe) {
            if (ZyanBitsetCount(&s->b, &cnt) != ZYAN_STATUS_SUCCESS) cnt = 4243;
            zv_usz("cnt", zv_fill ? cnt - B : cnt);
            zv_str("all", q(ZyanBitsetAll(&s->b))); zv_str("any", q(ZyanBitsetAny(&s->b))); zv_str("none", q(ZyanBitsetNone(&s->b))); }
            zv_str("lsb", q(ZyanBitsetTestLSB(&s->b))); zv_str("msb", q(ZyanBitsetTestMSB(&s->b)));
            zv_bool("guard", guard_ok(s));
        }
        zv_put("}");
    }
    zv_put("]");
    zv_usz("own", zv_bytes_outstanding() - hid); if (!B) zv_put_custom(1); zv_int("bad", zv_bad + !zv_giant_ok()); zv_bool("oom", zv_oom); zv_bool("inj", zv_fail_from != 0);
}
static void drop(slot* s) { free(s->buf); s->buf = 0; }
static void reset(void)
{
    for (int k = 0; k < 2; ++k) { drop(&sl[k]); memset(&sl[k], 0, sizeof sl[k]); memset(&sl[k].b, 0xCC, sizeof sl[k].b); }
    zv_ledger_reset();
}
TL int op_calls; TL long op_fail;
static ZyanStatus f_nand(ZyanU8* a, const ZyanU8* b) { if (++op_calls == op_fail) return ZYAN_MAKE_STATUS(1u, 0x3FFu, 0x77u); *a = (ZyanU8)~(*a & *b); return ZYAN_STATUS_SUCCESS; }
static ZyanStatus f_copy(ZyanU8* a, const ZyanU8* b) { if (++op_calls == op_fail) return ZYAN_MAKE_STATUS(1u, 0x3FFu, 0x77u); *a = *b; return ZYAN_STATUS_SUCCESS; }
static ZyanStatus nullcall(long k)
{
    ZyanBitset t; unsigned char x[64]; ZyanUSize n; ZyanBitset* v = sl[0].alive ? &sl[0].b : 0;
    memset(x, 0, sizeof x);
    switch (k)
    {
#ifndef ZYAN_NO_LIBC
    case 0: return ZyanBitsetInit(0, 3);
#endif
    case 1: return ZyanBitsetInitEx(0, 3, zv_alloc_custom(), 2, 2);
    case 2: return ZyanBitsetInitEx(&t, 3, 0, 2, 2);
    case 3: return ZyanBitsetInitEx(&t, 3, zv_alloc_custom(), 0, 2);
    case 4: return ZyanBitsetInitBuffer(0, 3, x, 64);
    case 5: return ZyanBitsetInitBuffer(&t, 3, 0, 64);
    case 6: return ZyanBitsetInitBuffer(&t, 0, x, 0);
    case 7: return ZyanBitsetDestroy(0);
    case 8: return ZyanBitsetPerformByteOperation(0, v, f_copy);
    case 9: return v ? ZyanBitsetPerformByteOperation(v, 0, f_copy) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 10: return v ? ZyanBitsetPerformByteOperation(v, v, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 11: return ZyanBitsetAND(0, v);
    case 12: return v ? ZyanBitsetAND(v, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 13: return ZyanBitsetOR(0, v);
    case 14: return v ? ZyanBitsetOR(v, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 15: return ZyanBitsetXOR(0, v);
    case 16: return v ? ZyanBitsetXOR(v, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 17: return ZyanBitsetFlip(0);
    case 18: return ZyanBitsetSet(0, 0);
    case 19: return ZyanBitsetReset(0, 0);
    case 20: return ZyanBitsetAssign(0, 0, 1);
    case 21: return ZyanBitsetAssign(0, 0, 0);
    case 22: return ZyanBitsetToggle(0, 0);
    case 23: return ZyanBitsetTest(0, 0);
    case 24: return ZyanBitsetTestMSB(0);
    case 25: return ZyanBitsetTestLSB(0);
    case 26: return ZyanBitsetSetAll(0);
    case 27: return ZyanBitsetResetAll(0);
    case 28: return ZyanBitsetPush(0, 1);
    case 29: return ZyanBitsetPop(0);
    case 30: return ZyanBitsetClear(0);
    case 31: return ZyanBitsetReserve(0, 1);
    case 32: return ZyanBitsetShrinkToFit(0);
    case 33: return ZyanBitsetGetSize(0, &n);
    case 34: return ZyanBitsetGetCapacity(0, &n);
    case 35: return ZyanBitsetGetSizeBytes(0, &n);
    case 36: return ZyanBitsetGetCapacityBytes(0, &n);
    case 37: return ZyanBitsetCount(0, &n);
    case 38: return v ? ZyanBitsetCount(v, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 39: return ZyanBitsetAll(0);
    case 40: return ZyanBitsetAny(0);
    case 41: return ZyanBitsetNone(0);
    }
    return ZYAN_STATUS_INVALID_ARGUMENT;
}
ZV_MAIN
{
    while (zv_read(stdin))
    {
        const char* op = zv_get("op");
        if (!op) continue;
        zv_begin(op);
        if (!strcmp(op, "Begin")) { reset(); zv_giant_begin(1, 8); zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        zv_op_begin(); zv_cursize = 0;
        int s = (int)zv_argi("s", 1), t = (int)zv_argi("t", 1);
        if (s < 1 || s > 2) s = 1;
        if (t < 1 || t > 2) t = 1;
        slot* a = &sl[s - 1]; slot* b = &sl[t - 1];
        if (a->alive) { ZyanUSize n = 0; ZyanBitsetGetSize(&a->b, &n); n -= zv_base; zv_cursize = n < 10000000 ? (long)n : 0; }
#define IS(name) (!strcmp(op, name))
        int creates = IS("Init") || IS("InitEx") || IS("InitBuf"), mixes = IS("AND") || IS("OR") || IS("XOR") || IS("ByteOp");
        const size_t B = zv_base; probe = (int)zv_argi("probe", 0);
        ZyanStatus st = ZYAN_STATUS_SUCCESS;
        size_t i = zv_arg("i", 0), n = zv_arg("n", 0); long x = zv_argi("x", 0) & 0xFF;
        if ((creates && a->alive) || (!creates && !IS("Null") && !a->alive) || (mixes && !b->alive) || (IS("Push") && zv_cursize >= MAXSHOW))
        {
            zv_len = 0; zv_begin("Skip"); project(); zv_end(); continue;
        }
        zv_int("s", s);
        if (creates)
        {
            size_t cap = zv_arg("cap", 0); int gf = (int)zv_argi("gf", 2), thr = (int)zv_argi("thr", 2);
            zv_usz("n", n); zv_usz("cap", cap);
            if (IS("InitBuf"))
            {
                a->cap = cap; a->buf = malloc(cap + 2 * GUARD(cap)); memset(a->buf, 0x5A, cap + 2 * GUARD(cap)); memset(a->buf + GUARD(cap), 0xEE, cap);
                st = ZyanBitsetInitBuffer(&a->b, n, a->buf + GUARD(cap), cap);
                if (ZYAN_SUCCESS(st)) a->fixed_ = 1; else { free(a->buf); a->buf = 0; }
            }
            else if (IS("InitEx")) { zv_int("gf", gf); zv_int("thr", thr); st = ZyanBitsetInitEx(&a->b, n + B, zv_alloc_custom(), (ZyanU8)gf, (ZyanU8)thr); }
            else
            {
                zv_int("gf", 2); zv_int("thr", 2);
#ifndef ZYAN_NO_LIBC
                st = ZyanBitsetInit(&a->b, n);
#else
                st = ZyanBitsetInitEx(&a->b, n, zv_alloc_custom(), 2, 2);
#endif
            }
            a->alive = ZYAN_SUCCESS(st);
        } else
        if (IS("Destroy")) { st = ZyanBitsetDestroy(&a->b); a->alive = 0; a->fixed_ = 0; drop(a); memset(&a->b, 0xCC, sizeof a->b); } else
        if (IS("Set")) { zv_usz("i", i); st = ZyanBitsetSet(&a->b, i + B); } else
        if (IS("Reset")) { zv_usz("i", i); st = ZyanBitsetReset(&a->b, i + B); } else
        if (IS("Toggle")) { zv_usz("i", i); st = ZyanBitsetToggle(&a->b, i + B); } else
        if (IS("Assign")) { zv_usz("i", i); zv_int("x", x); st = ZyanBitsetAssign(&a->b, i + B, (ZyanBool)x); } else
        if (IS("Test")) { zv_usz("i", i); st = ZyanBitsetTest(&a->b, i + B); } else
        if (IS("TestMSB")) st = ZyanBitsetTestMSB(&a->b); else
        if (IS("TestLSB")) st = ZyanBitsetTestLSB(&a->b); else
        if (IS("SetAll")) { st = ZyanBitsetSetAll(&a->b); if (ZYAN_SUCCESS(st)) zv_fill = 0xFF; } else
        if (IS("ResetAll")) { st = ZyanBitsetResetAll(&a->b); if (ZYAN_SUCCESS(st)) zv_fill = 0; } else
        if (IS("Flip")) st = ZyanBitsetFlip(&a->b); else
        if (IS("AND")) { zv_int("t", t); st = ZyanBitsetAND(&a->b, &b->b); } else
        if (IS("OR")) { zv_int("t", t); st = ZyanBitsetOR(&a->b, &b->b); } else
        if (IS("XOR")) { zv_int("t", t); st = ZyanBitsetXOR(&a->b, &b->b); } else
        if (IS("ByteOp"))
        {
            char* fn = zv_get("fn"); int nand = fn && !strcmp(fn, "NAND");
            zv_int("t", t); zv_str("fn", nand ? "NAND" : "COPY"); op_fail = zv_argi("k", 0); zv_int("k", op_fail); op_calls = 0;
            st = ZyanBitsetPerformByteOperation(&a->b, &b->b, nand ? f_nand : f_copy);
        } else
        if (IS("Push")) { zv_int("x", x); st = ZyanBitsetPush(&a->b, (ZyanBool)x); } else
        if (IS("Pop")) st = ZyanBitsetPop(&a->b); else
        if (IS("Clear")) st = ZyanBitsetClear(&a->b); else
        if (IS("Reserve")) { zv_usz("n", n); st = ZyanBitsetReserve(&a->b, n + B); } else
        if (IS("ShrinkToFit")) st = ZyanBitsetShrinkToFit(&a->b); else
        if (IS("Null")) { long k = zv_argi("k", 0); zv_int("k", k); st = nullcall(k); }
        else { fprintf(stderr, "unknown op %s\n", op); return 76; }
        zv_st(st); project(); zv_end();
    }
    return 0;
}
#include "threads.h"
