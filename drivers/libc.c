/* The fallback routines of Zycore/LibC.h. Every argument lies in a heap block of exactly its size. */
#include "mt.h"
#include <Zycore/LibC.h>
#include <Zycore/Types.h>
#ifndef ZYAN_NO_LIBC
#error "only without the C library"
#endif
typedef struct { unsigned char* p; size_t n; } blk;
static blk blocks[16]; static int nblocks;
static unsigned char* block(size_t n) { unsigned char* p = malloc(n); memset(p, 0xEE, n); blocks[nblocks].p = p; blocks[nblocks++].n = n; return p; }
static void release(void) { while (nblocks) free(blocks[--nblocks].p); }
static long tmp[1 << 18];
/* the values of `k`, repeated up to `r<k>` ones, the last of them replaced by `t<k>` */
static size_t bytes(const char* k)
{
    char rk[3] = {'r', *k, 0}, tk[3] = {'t', *k, 0};
    size_t n = zv_list(k, tmp, 65536), m = (size_t)zv_argi(rk, 0);
    if (n) for (size_t b = n; n < m; ++n) tmp[n] = tmp[n - b];
    if (n && zv_get(tk)) tmp[n - 1] = zv_argi(tk, 0);
    zv_ints(k, tmp, n); return n;
}
/* a text in a block of its size; term: with a terminator */
static char* text(const char* k, size_t extra, int term)
{
    size_t n = bytes(k); unsigned char* p = block(n + (term ? 1 : 0) + extra);
    for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)tmp[i];
    if (term) p[n] = 0;
    return (char*)p;
}
static long at(const void* base, const void* p) { return p ? (long)((const char*)p - (const char*)base) : -1; }
static long sign(int v) { return v < 0 ? -1 : v > 0; }
static void out(const void* p, size_t n) { zv_bytes("out", p, n); }
static char* tokbuf; static size_t toklen;
static long va_(long* o, int n, ...)
{
    ZyanVAList a, b; long k = 0; ZYAN_VA_START(a, n);
    if (n > 0) o[k++] = ZYAN_VA_ARG(a, int);
    ZYAN_VA_COPY(b, a);
    for (int i = 1; i < n; ++i) o[k++] = (i % 2) ? (long)ZYAN_VA_ARG(a, long long) : (long)ZYAN_VA_ARG(a, int);
    for (int i = 1; i < n; ++i) o[k++] = (i % 2) ? (long)ZYAN_VA_ARG(b, long long) : (long)ZYAN_VA_ARG(b, int);
    ZYAN_VA_END(b); ZYAN_VA_END(a);
    return k;
}
static void script(int from, int to)
{
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        int c = (int)zv_argi("c", 0), z = (int)zv_argi("z", 1); size_t n = (size_t)zv_argi("n", 0), d = (size_t)zv_argi("d", 0), s = (size_t)zv_argi("s", 0);
        char *a, *b; long r = 0;
        zv_int("c", c); zv_usz("n", n);
        if (IS("MemChr")) { a = text("a", 0, 0); r = at(a, ZYAN_MEMCHR(a, c, n)); }
        else if (IS("MemCmp")) { a = text("a", 0, 0); b = text("b", 0, 0); r = sign(ZYAN_MEMCMP(a, b, n)); }
        else if (IS("MemCpy")) { a = text("a", 0, 0); size_t k = blocks[nblocks - 1].n; b = text("b", 0, 0); r = at(a, ZYAN_MEMCPY(a, b, n)); out(a, k); }
        else if (IS("MemMove")) { a = text("a", 0, 0); size_t k = blocks[nblocks - 1].n; zv_usz("d", d); zv_usz("s", s); r = at(a, ZYAN_MEMMOVE(a + d, a + s, n)); out(a, k); }
        else if (IS("MemSet")) { a = text("a", 0, 0); size_t k = blocks[nblocks - 1].n; zv_usz("d", d); r = at(a, ZYAN_MEMSET(a + d, c, n)); out(a, k); }
        else if (IS("StrCat")) { b = text("b", 0, 1); size_t m = blocks[nblocks - 1].n - 1; a = text("a", m, 1); size_t k = blocks[nblocks - 1].n; r = at(a, ZYAN_STRCAT(a, b)); out(a, k); }
        else if (IS("StrNCat")) { zv_int("z", z); b = text("b", 0, z); size_t m = blocks[nblocks - 1].n - (z ? 1 : 0); if (m > n) m = n; a = text("a", m, 1); size_t k = blocks[nblocks - 1].n; r = at(a, ZYAN_STRNCAT(a, b, n)); out(a, k); }
        else if (IS("StrCpy")) { b = text("b", 0, 1); size_t k = blocks[nblocks - 1].n; a = (char*)block(k); r = at(a, ZYAN_STRCPY(a, b)); out(a, k); }
        else if (IS("StrNCpy")) { zv_int("z", z); b = text("b", 0, z); a = (char*)block(n); r = at(a, ZYAN_STRNCPY(a, b, n)); out(a, n); }
        else if (IS("StrXfrm")) { b = text("b", 0, 1); a = (char*)block(n); r = (long)ZYAN_STRXFRM(a, b, n); if ((size_t)r >= n) out("", 0); else out(a, n); }
        else if (IS("StrChr")) { a = text("a", 0, 1); r = at(a, ZYAN_STRCHR(a, c)); }
        else if (IS("StrRChr")) { a = text("a", 0, 1); r = at(a, ZYAN_STRRCHR(a, c)); }
        else if (IS("StrCmp")) { a = text("a", 0, 1); b = text("b", 0, 1); r = sign(ZYAN_STRCMP(a, b)); }
        else if (IS("StrColl")) { a = text("a", 0, 1); b = text("b", 0, 1); r = sign(ZYAN_STRCOLL(a, b)); }
        else if (IS("StrNCmp")) { zv_int("z", z); a = text("a", 0, z); b = text("b", 0, z); r = sign(ZYAN_STRNCMP(a, b, n)); }
        else if (IS("StrCSpn")) { a = text("a", 0, 1); b = text("b", 0, 1); r = (long)ZYAN_STRCSPN(a, b); }
        else if (IS("StrSpn")) { a = text("a", 0, 1); b = text("b", 0, 1); r = (long)ZYAN_STRSPN(a, b); }
        else if (IS("StrPBrk")) { a = text("a", 0, 1); b = text("b", 0, 1); r = at(a, ZYAN_STRPBRK(a, b)); }
        else if (IS("StrStr")) { a = text("a", 0, 1); b = text("b", 0, 1); r = at(a, ZYAN_STRSTR(a, b)); }
        else if (IS("StrLen")) { a = text("a", 0, 1); r = (long)ZYAN_STRLEN(a); }
        else if (IS("Tok") || IS("TokNext"))
        {
            int first = IS("Tok");
            if (first)
            {
                free(tokbuf); size_t k = bytes("a"); tokbuf = malloc(k + 1); toklen = k + 1;
                for (size_t i = 0; i < k; ++i) tokbuf[i] = (char)tmp[i];
                tokbuf[k] = 0;
            }
            b = text("b", 0, 1); r = at(tokbuf, ZYAN_STRTOK(first ? tokbuf : 0, b)); out(tokbuf, toklen);
        }
        else if (IS("Va")) { long o[64]; size_t k = bytes("a"); long v[8] = {0}; if (k > 6) k = 6; for (size_t i = 0; i < k; ++i) v[i] = tmp[i];
            r = va_(o, (int)k, (int)v[0], (long long)v[1], (int)v[2], (long long)v[3], (int)v[4], (long long)v[5]); zv_ints("out", o, (size_t)r); }
        else if (IS("Types"))
        {
            int w = (int)zv_argi("w", 8); zv_int("w", w);
#define T(U, I, N) { U u = ZYAN_UINT##N##_MAX; I x = ZYAN_INT##N##_MAX, m = ZYAN_INT##N##_MIN; r = (long)sizeof(U); zv_bytes("umax", &u, sizeof u); zv_bytes("max", &x, sizeof x); zv_bytes("min", &m, sizeof m); \
            zv_bool("signs", (U)-1 > 0 && (I)-1 < 0 && sizeof(U) == sizeof(I) && m < 0 && x > 0 && (ZYAN_INT##N##_MIN) < 0 && (ZYAN_INT##N##_MAX) > 0 && (ZYAN_UINT##N##_MAX) > 0); }
            if (w == 8) T(ZyanU8, ZyanI8, 8) else if (w == 16) T(ZyanU16, ZyanI16, 16) else if (w == 32) T(ZyanU32, ZyanI32, 32) else T(ZyanU64, ZyanI64, 64)
        }
        else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        zv_int("r", r);
        release(); zv_end();
    }
    _exit(0);
}
int main(void) { return zv_scripts(script); }
