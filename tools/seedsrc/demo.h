/* Helpers of the demonstrations of planted bugs. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <Zycore/Allocator.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Atomic.h>
#include <Zycore/Bitset.h>
#include <Zycore/Comparison.h>
#include <Zycore/Defines.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/Status.h>
#include <Zycore/String.h>
#include <Zycore/Types.h>
#include <Zycore/Vector.h>
#include <Zycore/Zycore.h>
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Terminal.h>
#include <Zycore/API/Thread.h>
#define CHECK(c) do { if (!(c)) { printf("%s:%d: %s does not hold\n", __FILE__, __LINE__, #c); fflush(stdout); exit(1); } } while (0)
#define OK(c) CHECK(ZYAN_SUCCESS(c))
/* An allocator that moves blocks on every reallocation, never reuses them, checks sizes and can refuse the k-th request. */
struct blk { void *p; size_t n; int live; };
static struct blk blks[1 << 16]; static size_t nblk; static long refuse_in = -1; static long requests;
static size_t find_blk(void *p) { for (size_t i = 0; i < nblk; ++i) if (blks[i].p == p) return i; printf("unknown block\n"); exit(1); }
static ZyanStatus t_alloc(ZyanAllocator *a, void **p, ZyanUSize e, ZyanUSize n)
{
    ++requests;
    if (refuse_in >= 0 && refuse_in-- == 0) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    CHECK(nblk < sizeof blks / sizeof *blks);
    void *q = malloc(e * n + 16); if (!q) return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    memset(q, 0xA5, e * n + 16);
    blks[nblk++] = (struct blk){ q, e * n, 1 };
    *p = q; return ZYAN_STATUS_SUCCESS;
}
static void t_drop(size_t i)
{
    for (int k = 0; k < 16; ++k) if (((unsigned char *)blks[i].p)[blks[i].n + k] != 0xA5) { printf("written behind a block\n"); exit(1); }
    memset(blks[i].p, 0xDD, blks[i].n); blks[i].live = 0;
}
static ZyanStatus t_realloc(ZyanAllocator *a, void **p, ZyanUSize e, ZyanUSize n)
{
    size_t i = find_blk(*p); CHECK(blks[i].live);
    void *q; ZyanStatus s = t_alloc(a, &q, e, n); if (!ZYAN_SUCCESS(s)) return s;
    memcpy(q, *p, blks[i].n < e * n ? blks[i].n : e * n);
    t_drop(i); *p = q; return s;
}
static ZyanStatus t_free(ZyanAllocator *a, void *p, ZyanUSize e, ZyanUSize n)
{
    size_t i = find_blk(p); CHECK(blks[i].live); CHECK(blks[i].n == e * n); t_drop(i); return ZYAN_STATUS_SUCCESS;
}
static ZyanAllocator T = { t_alloc, t_realloc, t_free };
static size_t t_live(void) { size_t c = 0; for (size_t i = 0; i < nblk; ++i) c += blks[i].live; return c; }
static ZyanStringView sv(const char *s, size_t n)
{
    ZyanStringView v; if (n) OK(ZyanStringViewInsideBufferEx(&v, s, n)); else OK(ZyanStringViewInsideBuffer(&v, "")); return v;
}
static void is_text(const ZyanString *s, const char *t, size_t n)
{
    const char *d; ZyanUSize k; OK(ZyanStringGetData(s, &d)); OK(ZyanStringGetSize(s, &k));
    CHECK(k == n); CHECK(!memcmp(d, t, n)); CHECK(d[n] == 0);
}
