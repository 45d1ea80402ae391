/* Common part of all conformance drivers.
 *
 * A driver reads a script (one operation per line, `key=value` tokens), performs each operation on
 * the real library and writes one JSON line per operation: the operation, its arguments, everything
 * the call returned, and the projection of the observable state after the call. A driver contains no
 * expectation about what is right: TLC decides that by validating the trace against the TLA+ spec.
 *
 * Size-like values near the top of the size type are written as 1000000000 - (SIZE_MAX - v), because
 * TLC's integers have 32 bits; the scripts use `M-k` for SIZE_MAX - k and `H-k` for SIZE_MAX / 2 - k
 * (written as 900000000 - k), `Q+k` for SIZE_MAX / 8 + 1 + k (800000000 + k).
 */
#ifndef ZV_DRV_H
#define ZV_DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sched.h>
#include <Zycore/Types.h>
#include <Zycore/Status.h>
#include <Zycore/Allocator.h>

/* Threads (threads.h): 1: every thread has objects of its own, 2: all threads share the objects. TL: state of
 * the driver that every thread has, OBJ: the objects under test and what belongs to them. */
#ifdef ZV_THREADS
#define TL static _Thread_local
#if ZV_THREADS == 1
#define OBJ static _Thread_local
#else
#define OBJ static
#endif
#define ZV_MAIN static int zv_main(void)
#define ZV_SHOW 4000
#define ZV_LINE (1 << 20)
#else
#define TL static
#define OBJ static
#define ZV_MAIN int main(void)
#define ZV_SHOW 340000
#define ZV_LINE (8 << 20)
#endif
#define ZV_MAXTOK 48
typedef struct { const char* k; char* v; } zv_tok;
TL zv_tok zv_toks[ZV_MAXTOK];
TL int zv_ntok;
TL long zv_cursize;   /* context for relative arguments: current size of the addressed object */

/* ---- output ---- */
TL char zv_buf[ZV_LINE];
TL size_t zv_len;
static int zv_fd = 1;      /* where the recording goes */
static void zv_put(const char* fmt, ...)
{
    va_list a; va_start(a, fmt);
    int n = vsnprintf(zv_buf + zv_len, sizeof(zv_buf) - zv_len, fmt, a);
    va_end(a);
    if (n < 0 || (size_t)n >= sizeof(zv_buf) - zv_len) { fprintf(stderr, "drv: line too long\n"); _exit(77); }
    zv_len += (size_t)n;
}
#ifdef ZV_THREADS
TL char* zv_rec; TL size_t zv_reclen, zv_reccap;   /* everything the thread recorded */
TL char** zv_src; TL int zv_nsrc;                  /* the lines of its script */
/* threads with the same script go through it side by side (relaxed: nothing is ordered by that) */
static unsigned zv_side, zv_arrived; TL unsigned zv_goal;
static void zv_abreast(void)
{
    if (!zv_side) return;
    zv_goal += zv_side; __atomic_fetch_add(&zv_arrived, 1, __ATOMIC_RELAXED);
    for (unsigned k = 0; (int)(__atomic_load_n(&zv_arrived, __ATOMIC_RELAXED) - zv_goal) < 0; ++k) if (k > 2000) sched_yield();
}
#endif
static void zv_flush(void)
{
#ifdef ZV_THREADS
    if (zv_reclen + zv_len > zv_reccap) { zv_reccap = 2 * (zv_reclen + zv_len); zv_rec = realloc(zv_rec, zv_reccap); }
    memcpy(zv_rec + zv_reclen, zv_buf, zv_len); zv_reclen += zv_len; zv_len = 0; return;
#endif
    size_t o = 0;
    while (o < zv_len) { ssize_t w = write(zv_fd, zv_buf + o, zv_len - o); if (w <= 0) _exit(78); o += (size_t)w; }
    zv_len = 0;
}
static void zv_begin(const char* op) { zv_len = 0; zv_put("{\"op\":\"%s\"", op); }
static void zv_end(void) { zv_put("}\n"); zv_flush(); }
static long zv_num(size_t v)
{
    if (v <= 400000000u) return (long)v;
    if (SIZE_MAX - v <= 50000000u) return 1000000000 - (long)(SIZE_MAX - v);
    if (v <= SIZE_MAX / 2 && SIZE_MAX / 2 - v <= 50000000u) return 900000000 - (long)(SIZE_MAX / 2 - v);
    if (v > SIZE_MAX / 8 && v - SIZE_MAX / 8 - 1 <= 50000000u) return 800000000 + (long)(v - SIZE_MAX / 8 - 1);
    return 700000000;
}
static void zv_int(const char* k, long v) { zv_put(",\"%s\":%ld", k, v); }
static void zv_usz(const char* k, size_t v) { zv_put(",\"%s\":%ld", k, zv_num(v)); }
static void zv_str(const char* k, const char* v) { zv_put(",\"%s\":\"%s\"", k, v); }
static void zv_bool(const char* k, int v) { zv_put(",\"%s\":%s", k, v ? "true" : "false"); }
static void zv_ints(const char* k, const long* v, size_t n)
{
    zv_put(",\"%s\":[", k);
    for (size_t i = 0; i < n; ++i) zv_put("%s%ld", i ? "," : "", v[i]);
    zv_put("]");
}
static void zv_bytes(const char* k, const void* p, size_t n)
{
    zv_put(",\"%s\":[", k);
    for (size_t i = 0; i < n; ++i) zv_put("%s%u", i ? "," : "", ((const unsigned char*)p)[i]);
    zv_put("]");
}

static const char* zv_stname(ZyanStatus s)
{
    TL char other[32];
    if (s == ZYAN_STATUS_SUCCESS) return "SUCCESS";
    if (s == ZYAN_STATUS_FAILED) return "FAILED";
    if (s == ZYAN_STATUS_TRUE) return "TRUE";
    if (s == ZYAN_STATUS_FALSE) return "FALSE";
    if (s == ZYAN_STATUS_INVALID_ARGUMENT) return "INVALID_ARGUMENT";
    if (s == ZYAN_STATUS_INVALID_OPERATION) return "INVALID_OPERATION";
    if (s == ZYAN_STATUS_ACCESS_DENIED) return "ACCESS_DENIED";
    if (s == ZYAN_STATUS_NOT_FOUND) return "NOT_FOUND";
    if (s == ZYAN_STATUS_OUT_OF_RANGE) return "OUT_OF_RANGE";
    if (s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) return "INSUFFICIENT_BUFFER_SIZE";
    if (s == ZYAN_STATUS_NOT_ENOUGH_MEMORY) return "NOT_ENOUGH_MEMORY";
    if (s == ZYAN_STATUS_BAD_SYSTEMCALL) return "BAD_SYSTEMCALL";
    if (s == ZYAN_STATUS_OUT_OF_RESOURCES) return "OUT_OF_RESOURCES";
    if (s == ZYAN_STATUS_MISSING_DEPENDENCY) return "MISSING_DEPENDENCY";
    if (s == ZYAN_STATUS_ARG_NOT_UNDERSTOOD) return "ARG_NOT_UNDERSTOOD";
    if (s == ZYAN_STATUS_TOO_FEW_ARGS) return "TOO_FEW_ARGS";
    if (s == ZYAN_STATUS_TOO_MANY_ARGS) return "TOO_MANY_ARGS";
    if (s == ZYAN_STATUS_ARG_MISSES_VALUE) return "ARG_MISSES_VALUE";
    if (s == ZYAN_STATUS_REQUIRED_ARG_MISSING) return "REQUIRED_ARG_MISSING";
    /* ZyanStatus of the drivers' own failing callbacks (a user module code) */
    if (s == ZYAN_MAKE_STATUS(1u, 0x3FFu, 0x77u)) return "USER_77";
    snprintf(other, sizeof(other), "OTHER_%08x", (unsigned)s);
    return other;
}
static void zv_st(ZyanStatus s) { zv_str("st", zv_stname(s)); }

/* ---- input ---- */
static char* zv_get(const char* k)
{
    for (int i = 0; i < zv_ntok; ++i) if (!strcmp(zv_toks[i].k, k)) return zv_toks[i].v;
    return 0;
}
static size_t zv_parse_size(const char* v)
{
    if (v[0] == 'M') return SIZE_MAX - (v[1] ? strtoul(v + 2, 0, 10) : 0);
    if (v[0] == 'H') return SIZE_MAX / 2 - (v[1] ? strtoul(v + 2, 0, 10) : 0);
    if (v[0] == 'Q') return SIZE_MAX / 8 + 1 + (v[1] ? strtoul(v + 2, 0, 10) : 0);
    if (v[0] == '%') return strtoul(v + 1, 0, 10) % (size_t)(zv_cursize + 1);
    if (v[0] == 'S') {
        long d = v[1] ? strtol(v + 1, 0, 10) : 0;
        long r = zv_cursize + d; return r < 0 ? 0 : (size_t)r;
    }
    return strtoul(v, 0, 10);
}
static size_t zv_arg(const char* k, size_t dflt) { char* v = zv_get(k); return v ? zv_parse_size(v) : dflt; }
static long zv_argi(const char* k, long dflt) { char* v = zv_get(k); return v ? strtol(v, 0, 10) : dflt; }
static size_t zv_list(const char* k, long* out, size_t max)
{
    char* v = zv_get(k); size_t n = 0;
    if (!v || !*v) return 0;
    while (n < max) { out[n++] = strtol(v, &v, 10); if (*v != ',') break; ++v; }
    return n;
}
/* the values of `k`, repeated (with an offset of `step` per round) until there are `rep` of them */
static long* zv_many(const char* k, size_t* n)
{
    TL long* l; TL size_t cap; char* v = zv_get(k); size_t m = 0, rep = zv_get("rep") ? strtoul(zv_get("rep"), 0, 10) : 0;
    size_t want = rep; if (v) { ++want; for (char* c = v; *c; ++c) want += *c == ','; }
    if (want + 1 > cap) { cap = 2 * want + 16; l = realloc(l, cap * sizeof *l); }
    m = zv_list(k, l, want); long step = zv_get("step") ? strtol(zv_get("step"), 0, 10) : 0;
    if (m) for (size_t b = m, i = m; i < rep; ++i, ++m) l[i] = (l[i - b] + step) & 0xFF;
    *n = m; return l;
}
TL char* zv_linebuf; TL size_t zv_linecap;
static int zv_read(FILE* f)
{
#ifdef ZV_THREADS
    (void)f; if (!zv_nsrc) return 0;
    size_t z = strlen(*zv_src) + 1; if (z > zv_linecap) zv_linebuf = realloc(zv_linebuf, zv_linecap = 2 * z);
    memcpy(zv_linebuf, *zv_src, z); ssize_t n = (ssize_t)z - 1; ++zv_src; --zv_nsrc;
#else
    ssize_t n = getline(&zv_linebuf, &zv_linecap, f);
    if (n <= 0) return 0;
#endif
    while (n > 0 && (zv_linebuf[n - 1] == '\n' || zv_linebuf[n - 1] == '\r')) zv_linebuf[--n] = 0;
    zv_ntok = 0;
    char* save = 0;
    for (char* t = strtok_r(zv_linebuf, " ", &save); t && zv_ntok < ZV_MAXTOK; t = strtok_r(0, " ", &save))
    {
        char* e = strchr(t, '=');
        if (!e) continue;
        *e = 0; zv_toks[zv_ntok].k = t; zv_toks[zv_ntok].v = e + 1; ++zv_ntok;
    }
#ifdef ZV_THREADS
    zv_abreast();
#endif
    return 1;
}

/* ---- objects beyond 4 GiB ----
 * `base=`: the object starts with so many positions that the recording leaves out; all positions are counted from
 * there. Their memory is one small piece mapped again and again, filled with the byte `fill=`.
 * `huge=`: elements of so many bytes of which all but the first and the last page are such memory. */
TL size_t zv_base, zv_prefix, zv_huge; TL int zv_fill, zv_chunk = -1; TL unsigned char* zv_chunk_p;
#define ZV_CHUNK ((size_t)4 << 20)
#define ZV_TAIL ((size_t)64 << 20)
static void zv_fail_map(void) { perror("drv: mmap"); _exit(80); }
static void* zv_map(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) zv_fail_map(); return p; }
/* the bytes from..to of p (page boundaries) become copies of the piece */
static void zv_alias(unsigned char* p, size_t from, size_t to)
{
    while (from < to)
    {
        size_t n = to - from < ZV_CHUNK ? to - from : ZV_CHUNK;
        if (mmap(p + from, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, zv_chunk, 0) == MAP_FAILED) zv_fail_map();
        from += n;
    }
}
static void zv_giant_begin(size_t unit_num, size_t unit_den)
{
    char* b = 0; char* h = 0; char* f = 0;
    for (int i = 0; i < zv_ntok; ++i)
    {
        if (!strcmp(zv_toks[i].k, "base")) b = zv_toks[i].v;
        if (!strcmp(zv_toks[i].k, "huge")) h = zv_toks[i].v;
        if (!strcmp(zv_toks[i].k, "fill")) f = zv_toks[i].v;
    }
    zv_base = b ? strtoul(b, 0, 10) : 0; zv_huge = h ? strtoul(h, 0, 10) : 0; zv_fill = f ? (int)strtol(f, 0, 10) : 0;
    zv_prefix = zv_base / unit_den * unit_num;
    if (!zv_base && !zv_huge) return;
    if (zv_chunk < 0)
    {
        zv_chunk = memfd_create("zv", 0); if (zv_chunk < 0 || ftruncate(zv_chunk, (off_t)ZV_CHUNK)) zv_fail_map();
        zv_chunk_p = mmap(0, ZV_CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED, zv_chunk, 0); if (zv_chunk_p == MAP_FAILED) zv_fail_map();
    }
    memset(zv_chunk_p, zv_fill, ZV_CHUNK);
}
static unsigned char* zv_giant_map(void)
{
    unsigned char* p = zv_map(zv_prefix + ZV_TAIL);
    zv_alias(p, 0, zv_prefix); memset(p + zv_prefix, 0xA5, 4096);
    return p;
}
static void zv_giant_unmap(void* p) { munmap(p, zv_prefix + ZV_TAIL); }
static int zv_giant_ok(void)      /* nothing was written to the positions left out */
{
    if (!zv_base) return 1;
    return zv_chunk_p[0] == (unsigned char)zv_fill && !memcmp(zv_chunk_p, zv_chunk_p + 1, ZV_CHUNK - 1);
}
static unsigned char* zv_huge_map(size_t bytes)
{
    size_t n = (bytes + zv_huge - 1) / zv_huge; if (!n) n = 1;
    unsigned char* p = zv_map(n * zv_huge);
    for (size_t k = 0; k < n; ++k) { zv_alias(p + k * zv_huge, 4096, zv_huge - 4096); memset(p + k * zv_huge, 0xA5, 4096); memset(p + (k + 1) * zv_huge - 4096, 0xA5, 4096); }
    return p;
}
static void zv_huge_unmap(void* p, size_t bytes) { size_t n = (bytes + zv_huge - 1) / zv_huge; munmap(p, (n ? n : 1) * zv_huge); }
static void zv_huge_copy(unsigned char* d, const unsigned char* s, size_t bytes)
{
    for (size_t k = 0; k < bytes / zv_huge; ++k) { memcpy(d + k * zv_huge, s + k * zv_huge, 4096); memcpy(d + (k + 1) * zv_huge - 4096, s + (k + 1) * zv_huge - 4096, 4096); }
}

/* ---- allocator ledger with fault injection ---- */
#ifdef ZV_THREADS
#define ZV_HASH (1u << 14)
#else
#define ZV_HASH (1u << 19)
#endif
typedef struct { void* p; size_t esize, n; int custom; int prev, next; } zv_blk;
OBJ zv_blk zv_blks[ZV_HASH];      /* open addressing; p == 0: never used, p == &zv_gone: used before */
static char zv_gone;
OBJ int zv_touched[ZV_HASH / 2];
OBJ size_t zv_used, zv_total, zv_total_custom;
OBJ int zv_nblk, zv_head = -1;    /* the blocks form a chain */
OBJ int zv_bad;            /* protocol violations: unknown block, wrong size, double release */
TL long zv_fail_from;     /* 0: never; k: the k-th allocator call of this operation and all later ones fail */
TL long zv_calls;         /* allocator calls in this operation */
TL int zv_oom;            /* a request was refused in this operation */
#define ZV_LIMIT ((size_t)64 << 20)

static size_t zv_hash(const void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 32) & (ZV_HASH - 1); }
static zv_blk* zv_find(void* p)
{
    if (!p || p == (void*)&zv_gone) return 0;
    for (size_t i = zv_hash(p); zv_blks[i].p; i = (i + 1) & (ZV_HASH - 1)) if (zv_blks[i].p == p) return &zv_blks[i];
    return 0;
}
static void zv_add(void* p, size_t es, size_t n, int custom)
{
    size_t i = zv_hash(p);
    while (zv_blks[i].p && zv_blks[i].p != (void*)&zv_gone) i = (i + 1) & (ZV_HASH - 1);
    if (!zv_blks[i].p)
    {
        if (zv_used == ZV_HASH / 2) { fprintf(stderr, "drv: too many blocks\n"); _exit(79); }
        zv_touched[zv_used++] = (int)i;
    }
    zv_blks[i].p = p; zv_blks[i].esize = es; zv_blks[i].n = n; zv_blks[i].custom = custom;
    zv_blks[i].prev = -1; zv_blks[i].next = zv_head; if (zv_head >= 0) zv_blks[zv_head].prev = (int)i; zv_head = (int)i;
    zv_total += es * n; if (custom) zv_total_custom += es * n;
    ++zv_nblk;
}
static void zv_del(zv_blk* b)
{
    zv_total -= b->esize * b->n; if (b->custom) zv_total_custom -= b->esize * b->n;
    if (b->prev >= 0) zv_blks[b->prev].next = b->next; else zv_head = b->next;
    if (b->next >= 0) zv_blks[b->next].prev = b->prev;
    b->p = &zv_gone; --zv_nblk;
}
static int zv_refuse(size_t es, size_t n)
{
    ++zv_calls;
    if ((zv_fail_from && zv_calls >= zv_fail_from) || (es && n > (zv_base || zv_huge ? (size_t)1 << 42 : ZV_LIMIT) / es)) { zv_oom = 1; return 1; }
    return 0;
}
static void* zv_fresh(size_t bytes)
{
    if (zv_base && bytes > zv_prefix / 2) return zv_giant_map();
    if (zv_huge) return zv_huge_map(bytes);
    void* p = malloc(bytes ? bytes : 1);
    if (!p) { fprintf(stderr, "drv: out of memory\n"); _exit(80); }
    memset(p, 0xA5, bytes ? bytes : 1);
    return p;
}
static void zv_release(void* p, size_t bytes)
{
    if (zv_base && bytes > zv_prefix / 2) zv_giant_unmap(p); else if (zv_huge) zv_huge_unmap(p, bytes); else free(p);
}
static void* zv_moved(void* p, size_t old, size_t bytes)
{
    if (zv_base && old > zv_prefix / 2 && bytes > zv_prefix / 2) return p;
    void* q = zv_fresh(bytes); size_t n = old < bytes ? old : bytes;
    if (zv_huge) zv_huge_copy(q, p, n); else memcpy(q, p, n);
    zv_release(p, old);
    return q;
}
static ZyanStatus zv_cb_alloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    (void)a;
    if (zv_refuse(es, n)) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    *p = zv_fresh(es * n);
    zv_add(*p, es, n, 1);
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus zv_cb_realloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    (void)a;
    zv_blk* b = zv_find(*p);
    if (!b || !b->custom || b->esize != es) ++zv_bad;
    if (zv_refuse(es, n)) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    void* q;
    if (b) { q = zv_moved(*p, b->esize * b->n, es * n); zv_del(b); } else q = zv_fresh(es * n);
    zv_add(q, es, n, 1);
    *p = q;
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus zv_cb_dealloc(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n)
{
    (void)a;
    zv_blk* b = zv_find(p);
    if (!b || !b->custom || b->esize != es || b->n != n) ++zv_bad;
    if (b) { zv_release(p, b->esize * b->n); zv_del(b); }
    return ZYAN_STATUS_SUCCESS;
}
OBJ ZyanAllocator zv_allocator;
static ZyanAllocator* zv_alloc_custom(void)
{
    if (!zv_allocator.allocate) ZyanAllocatorInit(&zv_allocator, zv_cb_alloc, zv_cb_realloc, zv_cb_dealloc);
    return &zv_allocator;
}
/* calls of the library's default allocator (see shim.h) */
#undef malloc
#undef calloc
#undef realloc
#undef free
void* zv_malloc(size_t n) { if (zv_refuse(1, n)) return 0; void* p = zv_fresh(n); zv_add(p, 1, n, 0); return p; }
void* zv_calloc(size_t n, size_t m) { if (zv_refuse(m, n)) return 0; void* p = zv_fresh(n * m); memset(p, 0, n * m); zv_add(p, 1, n * m, 0); return p; }
void* zv_realloc(void* p, size_t n)
{
    zv_blk* b = p ? zv_find(p) : 0;
    if (p && (!b || b->custom)) ++zv_bad;
    if (zv_refuse(1, n)) return 0;
    void* q;
    if (b) { q = zv_moved(p, b->n, n); zv_del(b); } else q = zv_fresh(n);
    zv_add(q, 1, n, 0);
    return q;
}
void zv_free(void* p)
{
    if (!p) return;
    zv_blk* b = zv_find(p);
    if (!b || b->custom) { ++zv_bad; return; }
    zv_release(p, b->n); zv_del(b);
}
/* releases everything still outstanding (between scripts) */
static void zv_ledger_reset(void)
{
    for (int i = zv_head; i >= 0; i = zv_blks[i].next) zv_release(zv_blks[i].p, zv_blks[i].esize * zv_blks[i].n);
    for (size_t k = 0; k < zv_used; ++k) zv_blks[zv_touched[k]].p = 0;
    zv_nblk = 0; zv_bad = 0; zv_head = -1; zv_used = zv_total = zv_total_custom = 0;
}
static void zv_op_begin(void)
{
    zv_fail_from = zv_argi("f", 0);
    zv_calls = 0; zv_oom = 0;
#ifndef ZV_THREADS
    alarm(zv_prefix || zv_huge ? 150 : 60);
#endif
}
static size_t zv_bytes_outstanding(void)
{
    return zv_total;
}
/* what of it comes from the allocator that was passed explicitly */
static void zv_put_custom(size_t unit)
{
#ifndef ZYAN_NO_LIBC
    size_t t = zv_total_custom;
    zv_int("ownc", t % unit ? -1 : zv_num(t / unit));
#else
    (void)unit;
#endif
}
static __attribute__((unused)) void zv_unused_fn(void)
{
    (void)zv_int; (void)zv_usz; (void)zv_str; (void)zv_bool; (void)zv_ints; (void)zv_bytes; (void)zv_st;
    (void)zv_arg; (void)zv_argi; (void)zv_list; (void)zv_many; (void)zv_read; (void)zv_begin; (void)zv_end;
    (void)zv_alloc_custom; (void)zv_ledger_reset; (void)zv_op_begin; (void)zv_put_custom; (void)zv_bytes_outstanding;
}
#if defined(__has_feature) && !defined(__cplusplus)
#if __has_feature(thread_sanitizer)
/* An aligned volatile access of a word is one access: not a race, and it orders nothing. */
#include <sanitizer/tsan_interface_atomic.h>
#define ZV_VOLATILE(n, bits) \
    void __tsan_volatile_read##n(void* p) { __tsan_atomic##bits##_load((__tsan_atomic##bits*)p, __tsan_memory_order_relaxed); } \
    void __tsan_volatile_write##n(void* p) { __tsan_atomic##bits##_fetch_or((__tsan_atomic##bits*)p, 0, __tsan_memory_order_relaxed); } \
    void __tsan_unaligned_volatile_read##n(void* p) { (void)p; } \
    void __tsan_unaligned_volatile_write##n(void* p) { (void)p; }
ZV_VOLATILE(1, 8) ZV_VOLATILE(2, 16) ZV_VOLATILE(4, 32) ZV_VOLATILE(8, 64)
#endif
#endif
#endif
