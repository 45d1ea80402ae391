/* Conformance driver of ZyanString, ZyanStringView and the number/format functions. */
#include "drv.h"
#include <wchar.h>
#include <Zycore/String.h>
#include <Zycore/Format.h>

#define NSTR 2
#define NVW 4
#define NBUF 64
#define SHOW 300000
OBJ ZyanString str[NSTR]; OBJ int alive[NSTR], fixed_[NSTR];
OBJ char* fbuf[NSTR]; OBJ size_t fcap[NSTR];
OBJ ZyanStringView vw[NVW]; OBJ int valive[NVW], vbase[NVW], vroot[NVW], vhid[NVW];
OBJ struct { char* p; char* copy; size_t n; } bufs[NBUF]; OBJ int nbuf;

static const ZyanStringView* view_of(int v)
{
    if (v >= 1 && v <= NVW) return valive[v - 1] ? &vw[v - 1] : 0;
    if (v == 11 || v == 12) return alive[v - 11] ? ZYAN_STRING_TO_VIEW(&str[v - 11]) : 0;
    return 0;
}
static int base_of(int v) { return v >= 11 ? v - 10 : vbase[v - 1]; }
static int root_of(int v) { return v >= 11 ? -1 : vroot[v - 1]; }
/* what is left out of the recording of a view: a string (and a view of all of it) begins with zv_base characters that are not mentioned */
static size_t hid(int v) { return v >= 11 || vhid[v - 1] ? zv_base : 0; }
static size_t vsize(const ZyanStringView* v, size_t B) { ZyanUSize n = 0; return ZyanStringViewGetSize(v, &n) == ZYAN_STATUS_SUCCESS ? n - B : 4243; }
static void kill_views(int s) { for (int k = 0; k < NVW; ++k) if (valive[k] && vbase[k] == s + 1) valive[k] = 0; }

static void project(void)
{
    const size_t B = zv_base; size_t out = 0;
    zv_put(",\"str\":[");
    for (int s = 0; s < NSTR; ++s)
    {
        zv_put("%s{\"a\":%s", s ? "," : "", alive[s] ? "true" : "false");
        if (alive[s])
        {
            ZyanUSize n = 12345, c = 12345; const char* d = 0;
            int bad = ZyanStringGetSize(&str[s], &n) != ZYAN_STATUS_SUCCESS;
            bad |= ZyanStringGetCapacity(&str[s], &c) != ZYAN_STATUS_SUCCESS; bad |= ZyanStringGetData(&str[s], &d) != ZYAN_STATUS_SUCCESS;
            n -= B; c -= B; if (!fixed_[s]) out += B;
            if (bad) n = 4243;
            zv_usz("sz", n); zv_usz("cap", c);
            size_t k = n <= SHOW && n <= c ? n : 0;
            zv_bytes("txt", d + B, k);
            zv_int("term", n <= c ? (long)(unsigned char)d[n + B] : -2);
            zv_bool("inb", !fixed_[s] || d == fbuf[s]);
            if (fixed_[s] && !B)
            {
                int ok = 1;   /* guard bytes around the caller's buffer */
                for (int g = 0; g < 16; ++g) if ((unsigned char)fbuf[s][-1 - g] != 0xE7) ok = 0;
                zv_bool("guard", ok);
            } else zv_bool("guard", 1);
        }
        zv_put("}");
    }
    zv_put("],\"vw\":[");
    for (int k = 0; k < NVW; ++k)
    {
        zv_put("%s{\"a\":%s", k ? "," : "", valive[k] ? "true" : "false");
        if (valive[k])
        {
            ZyanUSize n = 12345; const char* d = 0;
            if (ZyanStringViewGetSize(&vw[k], &n) != ZYAN_STATUS_SUCCESS || ZyanStringViewGetData(&vw[k], &d) != ZYAN_STATUS_SUCCESS) n = 4243;
            else if (vhid[k]) n -= B;
            const char* r = 0;
            if (vbase[k]) ZyanStringGetData(&str[vbase[k] - 1], &r); else r = bufs[vroot[k]].p;
            if (vbase[k]) { r += B; if (vhid[k]) d += B; }
            zv_usz("sz", n); zv_int("off", d >= r && d <= r + 10000000 ? (long)(d - r) : -1);
            zv_bytes("txt", d, n <= SHOW ? n : 0);
        }
        zv_put("}");
    }
    zv_put("]");
    int ok = 1;
    for (int k = 0; k < nbuf; ++k) if (memcmp(bufs[k].p, bufs[k].copy, bufs[k].n)) ok = 0;
    zv_bool("bufok", ok);
    zv_int("own", zv_num(zv_bytes_outstanding() - out));
    if (!B) zv_put_custom(1);
    zv_int("bad", zv_bad + !zv_giant_ok()); zv_bool("oom", zv_oom); zv_bool("inj", zv_fail_from != 0);
}
#define foff(s) (16 + (fcap[s] * 3 + (size_t)(s)) % 16)    /* the storage is not always aligned */
static void drop_fixed(int s) { if (fbuf[s] && zv_base) zv_giant_unmap(fbuf[s]); else if (fbuf[s]) free(fbuf[s] - foff(s)); fbuf[s] = 0; fixed_[s] = 0; }
static void make_fixed(int s, size_t cap)
{
    if (zv_base) { fbuf[s] = (char*)zv_giant_map(); fcap[s] = cap; fixed_[s] = 1; return; }
    /* exactly `cap` usable bytes up to the end of the heap block; guard bytes in front */
    fcap[s] = cap; fixed_[s] = 1;
    char* p = malloc(cap + foff(s)); memset(p, 0xE7, foff(s)); memset(p + foff(s), 0x5A, cap);
    fbuf[s] = p + foff(s);
}
static void reset(void)
{
    for (int s = 0; s < NSTR; ++s) { alive[s] = 0; drop_fixed(s); memset(&str[s], 0xCC, sizeof str[s]); }
    for (int k = 0; k < NVW; ++k) { valive[k] = 0; memset(&vw[k], 0xCC, sizeof vw[k]); }
    for (int k = 0; k < nbuf; ++k) { free(bufs[k].p); free(bufs[k].copy); }
    nbuf = 0;
    zv_ledger_reset();
}
/* a string of zv_base characters to begin with */
static ZyanStatus filled(ZyanString* t, ZyanStatus st)
{
    if (!zv_base || !ZYAN_SUCCESS(st)) return st;
    st = ZyanStringResize(t, zv_base); memset(zv_chunk_p, zv_fill, ZV_CHUNK);
    return st;
}
static ZyanStatus nullcall(long k)
{
    ZyanString t; ZyanStringView tv; char c = 'a'; char* cp; const char* ccp; ZyanISize is; ZyanUSize us; ZyanI32 i32; char b[64];
    static const ZyanStringView V = ZYAN_DEFINE_STRING_VIEW("abc");
    ZyanString* s = 0;
    switch (k)
    {
    case 0: return ZyanStringInitEx(0, 1, zv_alloc_custom(), 2, 4);
    case 1: return ZyanStringInitCustomBuffer(0, b, 8);
    case 2: return ZyanStringInitCustomBuffer(&t, 0, 8);
    case 3: return ZyanStringInitCustomBuffer(&t, b, 0);
    case 4: return ZyanStringDestroy(s);
    case 5: return ZyanStringDuplicateEx(&t, 0, 1, zv_alloc_custom(), 2, 4);
    case 6: return ZyanStringDuplicateCustomBuffer(&t, 0, b, 8);
    case 7: return ZyanStringConcatEx(&t, 0, &V, 1, zv_alloc_custom(), 2, 4);
    case 8: return ZyanStringConcatEx(&t, &V, 0, 1, zv_alloc_custom(), 2, 4);
    case 9: return ZyanStringConcatCustomBuffer(&t, 0, &V, b, 8);
    case 10: return ZyanStringConcatCustomBuffer(&t, &V, 0, b, 8);
    case 11: return ZyanStringViewInsideView(0, &V);
    case 12: return ZyanStringViewInsideView(&tv, 0);
    case 13: return ZyanStringViewInsideViewEx(0, &V, 0, 1);
    case 14: return ZyanStringViewInsideViewEx(&tv, 0, 0, 1);
    case 15: return ZyanStringViewInsideBuffer(0, "a");
    case 16: return ZyanStringViewInsideBuffer(&tv, 0);
    case 17: return ZyanStringViewInsideBufferEx(0, "a", 1);
    case 18: return ZyanStringViewInsideBufferEx(&tv, 0, 1);
    case 19: return ZyanStringViewGetSize(0, &us);
    case 20: return ZyanStringViewGetSize(&V, 0);
    case 21: return ZyanStringViewGetData(0, &ccp);
    case 22: return ZyanStringViewGetData(&V, 0);
    case 23: return ZyanStringGetChar(0, 0, &c);
    case 24: return ZyanStringGetChar(&V, 0, 0);
    case 25: return ZyanStringGetCharMutable(s, 0, &cp);
    case 26: return ZyanStringSetChar(s, 0, c);
    case 27: return ZyanStringInsert(s, 0, &V);
    case 28: return ZyanStringInsertEx(s, 0, &V, 0, 1);
    case 29: return ZyanStringAppend(s, &V);
    case 30: return ZyanStringAppendEx(s, &V, 0, 1);
    case 31: return ZyanStringDelete(s, 0, 1);
    case 32: return ZyanStringTruncate(s, 0);
    case 33: return ZyanStringClear(s);
    case 34: return ZyanStringLPos(0, &V, &is);
    case 35: return ZyanStringLPos(&V, 0, &is);
    case 36: return ZyanStringLPosEx(&V, &V, 0, 0, 1);
    case 37: return ZyanStringLPosI(0, &V, &is);
    case 38: return ZyanStringLPosI(&V, 0, &is);
    case 39: return ZyanStringRPos(0, &V, &is);
    case 40: return ZyanStringRPos(&V, 0, &is);
    case 41: return ZyanStringRPosI(0, &V, &is);
    case 42: return ZyanStringRPosI(&V, 0, &is);
    case 43: return ZyanStringRPosIEx(&V, &V, 0, 1, 1);
    case 44: return ZyanStringCompare(0, &V, &i32);
    case 45: return ZyanStringCompare(&V, 0, &i32);
    case 46: return ZyanStringCompareI(0, &V, &i32);
    case 47: return ZyanStringCompareI(&V, 0, &i32);
    case 48: return ZyanStringToLowerCase(s);
    case 49: return ZyanStringToUpperCase(s);
    case 50: return ZyanStringToLowerCaseEx(s, 0, 0);
    case 51: return ZyanStringToUpperCaseEx(s, 0, 0);
    case 52: return ZyanStringResize(s, 1);
    case 53: return ZyanStringReserve(s, 1);
    case 54: return ZyanStringShrinkToFit(s);
    case 55: return ZyanStringGetCapacity(s, &us);
    case 56: return ZyanStringGetSize(s, &us);
    case 57: return ZyanStringGetData(s, &ccp);
    case 58: return ZyanStringAppendDecU(s, 1, 0);
    case 59: return ZyanStringAppendDecS(s, 1, 0, 0, 0);
    case 60: return ZyanStringAppendHexU(s, 1, 0, 0);
    case 61: return ZyanStringAppendHexS(s, 1, 0, 0, 0, 0);
    case 62: return ZyanStringInitEx(&t, 1, 0, 2, 4);
    case 63: return ZyanStringInitEx(&t, 1, zv_alloc_custom(), 0, 4);
#ifndef ZYAN_NO_LIBC
    case 64: return ZyanStringAppendFormat(s, "a");
#endif
    }
    /* missing arguments together with a living string */
    if (alive[0])
        switch (k)
        {
        case 70: return ZyanStringInsert(&str[0], 0, 0);
        case 71: return ZyanStringInsertEx(&str[0], 0, 0, 0, 0);
        case 72: return ZyanStringAppend(&str[0], 0);
        case 73: return ZyanStringAppendEx(&str[0], 0, 0, 0);
        case 74: return ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&str[0]), 0, 0);
#ifndef ZYAN_NO_LIBC
        case 75: return ZyanStringAppendFormat(&str[0], 0);
#endif
        }
    return ZYAN_STATUS_INVALID_ARGUMENT;
}
static void skip(void) { zv_len = 0; zv_begin("Skip"); project(); zv_end(); }

ZV_MAIN
{
    TL long l[16];
    while (zv_read(stdin))
    {
        const char* op = zv_get("op");
        if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { reset(); zv_giant_begin(1, 1); zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        zv_op_begin();
        int s = (int)zv_argi("s", 1) - 1; if (s < 0 || s >= NSTR) s = 0;
        int v = (int)zv_argi("v", 0), w = (int)zv_argi("w", 0);
        ZyanString* S = &str[s];
        ZyanStatus st = ZYAN_STATUS_SUCCESS; long val = -7;
        const ZyanStringView* V = 0; const ZyanStringView* W = 0;

        /* ---- views ---- */
        if (IS("Buf"))
        {
            if (v < 1 || v > NVW || nbuf == NBUF) { skip(); continue; }
            size_t n; long* xs = zv_many("xs", &n); TL long t[256]; size_t nt = zv_list("tail", t, 256);
            int term = (int)zv_argi("term", 1);
            char* p = malloc(n + nt + (term ? 1 : 0) + (n + nt + term == 0));
            for (size_t k = 0; k < n; ++k) { xs[k] &= 0xFF; p[k] = (char)xs[k]; }
            if (term) { p[n] = 0; nt = 0; }
            for (size_t k = 0; k < nt; ++k) p[n + k] = (char)t[k];
            size_t total = n + nt + (term ? 1 : 0);
            char* q = malloc(total ? total : 1); memcpy(q, p, total);
            bufs[nbuf].p = p; bufs[nbuf].copy = q; bufs[nbuf].n = total;
            ZyanStringView tv; memset(&tv, 0xCC, sizeof tv);
            st = term ? ZyanStringViewInsideBuffer(&tv, p) : ZyanStringViewInsideBufferEx(&tv, p, n);
            zv_int("s", 0); zv_int("v", v); zv_ints("xs", xs, n); zv_int("term", term);
            if (ZYAN_SUCCESS(st)) { vw[v - 1] = tv; valive[v - 1] = 1; vbase[v - 1] = 0; vroot[v - 1] = nbuf; vhid[v - 1] = 0; }
            ++nbuf;
            goto done;
        }
        if (IS("View") || IS("ViewEx"))
        {
            W = view_of(w);
            if (v < 1 || v > NVW || !W) { skip(); continue; }
            ZyanStringView tv; memset(&tv, 0xCC, sizeof tv);
            zv_int("s", 0); zv_int("v", v); zv_int("w", w);
            /* a view of itself: narrowed where it is */
            ZyanStringView own = *W; int same = w == v && v <= NVW && valive[v - 1];
            if (same) { tv = own; W = &tv; }
            if (IS("View")) st = ZyanStringViewInsideView(&tv, W);
            else
            {
                zv_cursize = (long)vsize(W, hid(w));
                size_t i = zv_arg("i", 0); if (i <= (size_t)zv_cursize) zv_cursize -= (long)i;
                size_t n = zv_arg("n", 0);
                zv_usz("i", i); zv_usz("n", n);
                st = ZyanStringViewInsideViewEx(&tv, W, i + hid(w), n);
            }
            if (same && !ZYAN_SUCCESS(st) && memcmp(&own, &tv, sizeof own)) ++zv_bad;
            if (ZYAN_SUCCESS(st))
            {
                int b = base_of(w), r = root_of(w), h = IS("View") && hid(w) != 0;
                vw[v - 1] = tv; valive[v - 1] = 1; vbase[v - 1] = b; vroot[v - 1] = r; vhid[v - 1] = h;
            }
            goto done;
        }
        if (IS("GetChar"))
        {
            V = view_of(v); if (!V) { skip(); continue; }
            char c = 0x77; zv_cursize = (long)vsize(V, hid(v)); size_t i = zv_arg("i", 0);
            zv_int("s", 0); zv_int("v", v); zv_usz("i", i);
            st = ZyanStringGetChar(V, i + hid(v), &c); if (ZYAN_SUCCESS(st)) val = (unsigned char)c;
            goto done;
        }
        if (IS("LPos") || IS("LPosI") || IS("RPos") || IS("RPosI") || IS("LPosEx") || IS("LPosIEx") || IS("RPosEx") || IS("RPosIEx"))
        {
            V = view_of(v); W = view_of(w); if (!V || !W) { skip(); continue; }
            ZyanISize f = -99;
            zv_int("s", 0); zv_int("v", v); zv_int("w", w);
            if (IS("LPos")) st = ZyanStringLPos(V, W, &f); else
            if (IS("LPosI")) st = ZyanStringLPosI(V, W, &f); else
            if (IS("RPos")) st = ZyanStringRPos(V, W, &f); else
            if (IS("RPosI")) st = ZyanStringRPosI(V, W, &f); else
            {
                zv_cursize = (long)vsize(V, hid(v));
                size_t i = zv_arg("i", 0);
                if (i <= (size_t)zv_cursize) zv_cursize = op[0] == 'L' ? zv_cursize - (long)i : (long)i;
                size_t n = zv_arg("n", 0);
                zv_usz("i", i); zv_usz("n", n);
                if (IS("LPosEx")) st = ZyanStringLPosEx(V, W, &f, i + hid(v), n); else
                if (IS("LPosIEx")) st = ZyanStringLPosIEx(V, W, &f, i + hid(v), n); else
                if (IS("RPosEx")) st = ZyanStringRPosEx(V, W, &f, i + hid(v), n); else
                st = ZyanStringRPosIEx(V, W, &f, i + hid(v), n);
            }
            if (f >= 0) { f -= (ZyanISize)hid(v); if (f < 0) f = -2; }
            val = f == -1 ? -1 : f < 0 ? -99 : zv_num((size_t)f);
            goto done;
        }
        if (IS("Compare") || IS("CompareI"))
        {
            V = view_of(v); W = view_of(w); if (!V || !W || hid(v) != hid(w)) { skip(); continue; }
            ZyanI32 r = 1234567;
            zv_int("s", 0); zv_int("v", v); zv_int("w", w);
            st = IS("Compare") ? ZyanStringCompare(V, W, &r) : ZyanStringCompareI(V, W, &r);
            val = r == 1234567 ? -99 : (r > 0) - (r < 0);
            goto done;
        }
        if (IS("Null")) { zv_int("s", 0); long k = zv_argi("k", 0); zv_int("k", k); st = nullcall(k); goto done; }

        /* ---- strings ---- */
        size_t cap = zv_arg("cap", 0); int gf = (int)zv_argi("gf", 2), thr = (int)zv_argi("thr", 4);
        if (IS("Init") || IS("InitEx") || IS("InitBuf"))
        {
            if (alive[s]) { skip(); continue; }
            ZyanString t; memset(&t, 0xCC, sizeof t);
            zv_int("s", s + 1); zv_usz("cap", cap);
#ifndef ZYAN_NO_LIBC
            if (IS("Init")) { gf = 2; thr = 4; st = ZyanStringInit(&t, cap + zv_base); } else
#endif
            if (!IS("InitBuf")) st = ZyanStringInitEx(&t, cap + zv_base, zv_alloc_custom(), (ZyanU8)gf, (ZyanU8)thr);
            else
            {
                make_fixed(s, cap);
                st = ZyanStringInitCustomBuffer(&t, fbuf[s], cap + zv_base);
                if (!ZYAN_SUCCESS(st)) drop_fixed(s);
            }
            st = filled(&t, st);
            zv_int("gf", gf); zv_int("thr", thr);
            if (ZYAN_SUCCESS(st)) { *S = t; alive[s] = 1; }
            goto done;
        }
        if (IS("Dup") || IS("DupEx") || IS("DupBuf") || IS("Concat") || IS("ConcatEx") || IS("ConcatBuf"))
        {
            int cc = op[0] == 'C';
            V = view_of(v); W = cc ? view_of(w) : V;
            if (alive[s] || !V || !W || hid(v) != zv_base || (cc && hid(w))) { skip(); continue; }
            const size_t B = zv_base;
            zv_cursize = (long)vsize(V, hid(v)) + (cc ? (long)vsize(W, hid(w)) : 0);
            cap = zv_arg("cap", 0);
            if (strstr(op, "Buf") && cap > 100000) cap = 1;
            ZyanString t; memset(&t, 0xCC, sizeof t);
            zv_int("s", s + 1); zv_int("v", v); if (cc) zv_int("w", w);
            zv_usz("cap", cap);
#ifndef ZYAN_NO_LIBC
            if (IS("Dup")) { gf = 2; thr = 4; st = ZyanStringDuplicate(&t, V, cap + B); } else
            if (IS("Concat")) { gf = 2; thr = 4; st = ZyanStringConcat(&t, V, W, cap + B); } else
#endif
            if (strstr(op, "Buf"))
            {
                make_fixed(s, cap);
                st = cc ? ZyanStringConcatCustomBuffer(&t, V, W, fbuf[s], cap + B) : ZyanStringDuplicateCustomBuffer(&t, V, fbuf[s], cap + B);
                if (!ZYAN_SUCCESS(st)) drop_fixed(s);
            } else
                st = cc ? ZyanStringConcatEx(&t, V, W, cap + B, zv_alloc_custom(), (ZyanU8)gf, (ZyanU8)thr)
                        : ZyanStringDuplicateEx(&t, V, cap + B, zv_alloc_custom(), (ZyanU8)gf, (ZyanU8)thr);
            if (B) memset(zv_chunk_p, zv_fill, ZV_CHUNK);   /* the terminator of the empty string went to the shared piece */
            zv_int("gf", gf); zv_int("thr", thr);
            if (ZYAN_SUCCESS(st)) { *S = t; alive[s] = 1; }
            goto done;
        }
        if (!alive[s]) { skip(); continue; }
        zv_cursize = 0; { ZyanUSize n = 0; ZyanStringGetSize(S, &n); n -= zv_base; zv_cursize = n < 10000000 ? (long)n : 0; }
        long len = zv_cursize; const size_t B = zv_base;
        long x = zv_argi("x", 0) & 0xFF;
        size_t i = zv_arg("i", 0);
        if (i <= (size_t)len) zv_cursize = len - (long)i;
        size_t n = zv_arg("n", 0);
        zv_int("s", s + 1);
        if (v)
        {
            V = view_of(v);
            if (!V || base_of(v) == s + 1 || hid(v)) { skip(); continue; }
            zv_int("v", v);
        }
        if (IS("Destroy")) { st = ZyanStringDestroy(S); kill_views(s); alive[s] = 0; drop_fixed(s); memset(S, 0xCC, sizeof *S); goto done; }
        if (IS("GetCharM"))
        {
            char* p = 0; zv_usz("i", i);
            st = ZyanStringGetCharMutable(S, i + B, &p); if (ZYAN_SUCCESS(st)) val = p ? (unsigned char)*p : -3;
            goto done;
        }
        kill_views(s);
        if (IS("SetCharM"))
        {
            char* p = 0; zv_usz("i", i); zv_int("x", x);
            st = ZyanStringGetCharMutable(S, i + B, &p); if (ZYAN_SUCCESS(st) && p) *p = (char)x;
        } else
        if (IS("SetChar")) { zv_usz("i", i); zv_int("x", x); st = ZyanStringSetChar(S, i + B, (char)x); } else
        if (IS("Insert")) { zv_usz("i", i); if (!V) { skip(); continue; } st = ZyanStringInsert(S, i + B, V); } else
        if (IS("Append")) { if (!V) { skip(); continue; } st = ZyanStringAppend(S, V); } else
        if (IS("InsertEx") || IS("AppendEx"))
        {
            if (!V) { skip(); continue; }
            zv_cursize = (long)vsize(V, hid(v));
            size_t j = zv_arg("j", 0); if (j <= (size_t)zv_cursize) zv_cursize -= (long)j;
            n = zv_arg("n", 0);
            if (IS("InsertEx")) zv_usz("i", i);
            zv_usz("j", j); zv_usz("n", n);
            st = IS("InsertEx") ? ZyanStringInsertEx(S, i + B, V, j, n) : ZyanStringAppendEx(S, V, j, n);
        } else
        if (IS("Delete")) { zv_usz("i", i); zv_usz("n", n); st = ZyanStringDelete(S, i + B, n); } else
        if (IS("Truncate")) { zv_usz("i", i); st = ZyanStringTruncate(S, i + B); } else
        if (IS("Clear")) st = ZyanStringClear(S); else
        if (IS("Lower")) st = ZyanStringToLowerCase(S); else
        if (IS("Upper")) st = ZyanStringToUpperCase(S); else
        if (IS("LowerEx")) { zv_usz("i", i); zv_usz("n", n); st = ZyanStringToLowerCaseEx(S, i + B, n); } else
        if (IS("UpperEx")) { zv_usz("i", i); zv_usz("n", n); st = ZyanStringToUpperCaseEx(S, i + B, n); } else
        if (IS("Resize"))
        {
            zv_cursize = len; n = zv_arg("n", 0);
            zv_usz("n", n); zv_int("x", x);
            st = ZyanStringResize(S, n + B);
            if (ZYAN_SUCCESS(st) && n < 10000000)
                for (size_t k = (size_t)len; k < n; ++k) { char* p; if (ZYAN_SUCCESS(ZyanStringGetCharMutable(S, k + B, &p))) *p = (char)x; }
        } else
        if (IS("Reserve")) { zv_cursize = len; n = zv_arg("n", 0); zv_usz("n", n); st = ZyanStringReserve(S, n + B); } else
        if (IS("ShrinkToFit")) st = ZyanStringShrinkToFit(S); else
        if (IS("DecU") || IS("DecS") || IS("HexU") || IS("HexS"))
        {
            size_t m = zv_list("q", l, 4); uint64_t q = 0;
            for (size_t k = 0; k < 4; ++k) { if (k >= m) l[k] = 0; q = q << 16 | (uint64_t)(l[k] & 0xFFFF); }
            int pad = (int)zv_argi("pad", 0), up = (int)zv_argi("up", 0), fs = (int)zv_argi("force", 0);
            zv_ints("q", l, 4); zv_int("pad", pad); zv_bool("up", up); zv_bool("force", fs);
            if (IS("DecU")) st = ZyanStringAppendDecU(S, q, (ZyanU8)pad); else
            if (IS("DecS")) st = ZyanStringAppendDecS(S, (ZyanI64)q, (ZyanU8)pad, (ZyanBool)fs, V); else
            if (IS("HexU")) st = ZyanStringAppendHexU(S, q, (ZyanU8)pad, (ZyanBool)up); else
            st = ZyanStringAppendHexS(S, (ZyanI64)q, (ZyanU8)pad, (ZyanBool)up, (ZyanBool)fs, V);
        } else
#ifndef ZYAN_NO_LIBC
        if (IS("Fmt"))
        {
            long k = zv_argi("k", 0), d = zv_argi("d", 0), wd = zv_argi("wd", 0);
            size_t m; long* xs = zv_many("xs", &m); char* t = malloc(m + 1);
            for (size_t z = 0; z < m; ++z) { xs[z] &= 0xFF; if (!xs[z]) xs[z] = 1; t[z] = (char)xs[z]; }
            t[m] = 0;
            zv_int("k", k); zv_int("d", d); zv_int("wd", wd); zv_ints("xs", xs, m);
            switch (k)
            {
            case 0: st = ZyanStringAppendFormat(S, "%s", t); break;
            case 1: st = ZyanStringAppendFormat(S, "%d", (int)d); break;
            case 2: st = ZyanStringAppendFormat(S, "<%s:%d>", t, (int)d); break;
            case 3: st = ZyanStringAppendFormat(S, "100%%"); break;
            case 4: st = ZyanStringAppendFormat(S, "a%cb%s", 0, t); break;
            case 5: st = ZyanStringAppendFormat(S, ""); break;
            case 6: st = ZyanStringAppendFormat(S, "x%sy%lcz", t, (wint_t)0x3B1); break;
            case 7: st = ZyanStringAppendFormat(S, "%0*d", (int)wd, (int)d); break;
            case 8: st = ZyanStringAppendFormat(S, "%s %s%c", t, "zz", (int)(d & 127)); break;
            case 9: st = ZyanStringAppendFormat(S, "x%2147483648d", 1); break;
            }
            free(t);
        } else
#endif
        { fprintf(stderr, "unknown op %s\n", op); return 76; }
    done:
        zv_st(st); zv_int("val", val);
        project(); zv_end();
    }
    return 0;
}
#include "threads.h"
