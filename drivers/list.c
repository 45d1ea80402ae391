#include "drv.h"
#include "elem.h"
#include <Zycore/List.h>

OBJ ZyanList list;
OBJ int alive, fixed_;
OBJ unsigned char* fbuf; OBJ size_t fcap;
/* node address -> small number */
#define HASH ZV_HASH
OBJ struct { const void* p; int id; } addr[HASH]; OBJ int touched[HASH / 2]; OBJ int naddr;

static int id_of(const void* p)
{
    size_t i = (size_t)((uintptr_t)p * 0x9E3779B97F4A7C15ull >> 40) & (HASH - 1);
    for (; addr[i].p; i = (i + 1) & (HASH - 1)) if (addr[i].p == p) return addr[i].id;
    if (naddr == (int)(HASH / 2)) return -1;
    touched[naddr++] = (int)i; addr[i].p = p; addr[i].id = naddr;
    return naddr;
}
#define MAXSHOW ZV_SHOW
static int by_place(const void* a, const void* b) { const unsigned char* x = *(const unsigned char* const*)a, *y = *(const unsigned char* const*)b; return (x > y) - (x < y); }
static void project(void)
{
    TL long f[MAXSHOW], b[MAXSHOW], ids[MAXSHOW]; size_t nf = 0, nb = 0; int inb = 1;
    TL const unsigned char* place[MAXSHOW];
    zv_bool("a", alive);
    if (alive)
    {
        ZyanUSize n = 12345; const ZyanListNode* node = 0, *tl = 0;
        if (ZyanListGetSize(&list, &n) != ZYAN_STATUS_SUCCESS || ZyanListGetHeadNode(&list, &node) != ZYAN_STATUS_SUCCESS ||
            ZyanListGetTailNode(&list, &tl) != ZYAN_STATUS_SUCCESS) n = 4243;
        zv_usz("sz", n);
        while (node && nf < MAXSHOW && nf < n + 2)
        {
            const unsigned char* d = ZyanListGetNodeData(node); const unsigned char* m = (const unsigned char*)node;
            if (fixed_)
            {
                const unsigned char* lo = d < m ? d : m, *hi = d + esz > m + sizeof *node ? d + esz : m + sizeof *node;
                if (lo < fbuf || hi > fbuf + fcap) inb = 0;
            }
            place[nf] = m;
            if (fixed_ && !inb) { ids[nf] = -1; f[nf++] = -9; break; }
            ids[nf] = id_of(node);
            f[nf++] = dec(d);
            if (ZyanListGetNextNode(&node) != ZYAN_STATUS_SUCCESS) { f[nf - 1] = -8; break; }
        }
        if (fixed_ && inb)
        {
            qsort(place, nf, sizeof place[0], by_place);
            for (size_t k = 1; k < nf; ++k) if ((size_t)(place[k] - place[k - 1]) < sizeof *node + esz) inb = 0;
        }
        node = 0;
        if (inb)
        {
            node = tl;
            while (node && nb < MAXSHOW && nb < n + 2)
            {
                b[nb++] = dec(ZyanListGetNodeData(node));
                if (ZyanListGetPrevNode(&node) != ZYAN_STATUS_SUCCESS) { b[nb - 1] = -8; break; }
            }
        }
        zv_ints("fwd", f, nf); zv_ints("bwd", b, nb); zv_ints("ids", ids, nf); zv_bool("inb", inb);
    }
    zv_int("own", zv_nblk);
    zv_put_custom(sizeof(ZyanListNode) + esz);
    size_t want = (size_t)zv_nblk * (sizeof(ZyanListNode) + esz);
    zv_bool("exact", zv_bytes_outstanding() == want);
    zv_int("bad", zv_bad); zv_bool("oom", zv_oom); zv_bool("inj", zv_fail_from != 0);
    zv_ints("dt", dt, ndt);
}
static void reset(void)
{
    alive = 0; free(fbuf); fbuf = 0; fixed_ = 0;
    for (int k = 0; k < naddr; ++k) addr[touched[k]].p = 0;
    naddr = 0;
    memset(&list, 0xCC, sizeof list); zv_ledger_reset();
}
static const ZyanListNode* node_at(size_t i)
{
    const ZyanListNode* n = 0; ZyanListGetHeadNode(&list, &n);
    while (n && i--) ZyanListGetNextNode(&n);
    return n;
}
static ZyanStatus nullcall(long k)
{
    unsigned char x[256]; const ZyanListNode* n = 0; const void* cv; void* mv; ZyanUSize us; ZyanList t;
    const ZyanListNode* h = alive ? node_at(0) : 0;
    memset(x, 0, sizeof x);
    switch (k)
    {
    case 0: return ZyanListInitEx(0, esz, 0, zv_alloc_custom());
    case 1: return ZyanListInitEx(&t, 0, 0, zv_alloc_custom());
    case 2: return ZyanListInitEx(&t, esz, 0, 0);
    case 3: return ZyanListInitCustomBuffer(0, esz, 0, x, 100);
    case 4: return ZyanListInitCustomBuffer(&t, 0, 0, x, 100);
    case 5: return ZyanListInitCustomBuffer(&t, esz, 0, 0, 100);
    case 6: return ZyanListInitCustomBuffer(&t, esz, 0, x, 0);
    case 7: return ZyanListDestroy(0);
    case 8: return ZyanListGetHeadNode(0, &n);
    case 9: return ZyanListGetTailNode(0, &n);
    case 10: return ZyanListGetPrevNode(0);
    case 11: return ZyanListGetPrevNode(&n);
    case 12: return ZyanListGetNextNode(0);
    case 13: return ZyanListGetNextNode(&n);
    case 14: return ZyanListGetNodeData(0) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT;
    case 15: return ZyanListGetNodeDataEx(0, &cv);
    case 16: return ZyanListGetNodeDataMutable(0) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT;
    case 17: return ZyanListGetNodeDataMutableEx(0, &mv);
    case 18: return ZyanListPushBack(0, x);
    case 19: return ZyanListPushFront(0, x);
    case 20: return ZyanListEmplaceBack(0, &mv, 0);
    case 21: return ZyanListEmplaceFront(0, &mv, 0);
    case 22: return ZyanListPopBack(0);
    case 23: return ZyanListPopFront(0);
    case 24: return ZyanListRemove(0, h);
    case 25: return ZyanListRemoveRange(0, h, h);
    case 26: return ZyanListClear(0);
    case 27: return ZyanListResize(0, 1);
    case 28: return ZyanListResizeEx(0, 1, x);
    case 29: return ZyanListGetSize(0, &us);
    case 30: return ZyanListSetNodeData(0, h, x);
    case 31: return alive ? ZyanListPushBack(&list, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 32: return alive ? ZyanListPushFront(&list, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 33: return alive ? ZyanListEmplaceBack(&list, 0, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 34: return alive ? ZyanListEmplaceFront(&list, 0, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 35: return alive ? ZyanListSetNodeData(&list, 0, x) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 36: return h ? ZyanListSetNodeData(&list, h, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 37: return alive ? ZyanListRemove(&list, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 38: return h ? ZyanListRemoveRange(&list, h, 0) : ZYAN_STATUS_INVALID_ARGUMENT;
    case 39: return h ? ZyanListRemoveRange(&list, 0, h) : ZYAN_STATUS_INVALID_ARGUMENT;
    }
    return ZYAN_STATUS_INVALID_ARGUMENT;
}
/* a list whose nodes no memory could hold: element sizes next to the largest number */
static long giant(long k, size_t d, int buf, ZyanStatus* st)
{
    ZyanList t; size_t cap = 200; unsigned char* b = malloc(cap); void* p = 0; const ZyanListNode *h = 0, *l = 0; ZyanUSize n = 99; long bad = 0;
    unsigned char x[64]; memset(x, 7, sizeof x); memset(b, 0x5A, cap);
    ZyanStatus s0 = buf ? ZyanListInitCustomBuffer(&t, (size_t)-1 - d, 0, b, cap) : ZyanListInitEx(&t, (size_t)-1 - d, 0, zv_alloc_custom());
    *st = s0;
    if (ZYAN_SUCCESS(s0))
    {
        switch (k)
        {
        case 0: *st = ZyanListEmplaceBack(&t, &p, 0); break;
        case 1: *st = ZyanListEmplaceFront(&t, &p, 0); break;
        case 2: *st = ZyanListResize(&t, 1); break;
        case 3: *st = ZyanListPushBack(&t, x); break;
        default: *st = ZyanListPushFront(&t, x); break;
        }
        ZyanListGetSize(&t, &n); ZyanListGetHeadNode(&t, &h); ZyanListGetTailNode(&t, &l);
        bad = (long)n + (h != 0) + (l != 0); ZyanListDestroy(&t);
    }
    for (size_t i = 0; i < cap; ++i) bad += b[i] != 0x5A;
    free(b);
    return bad;
}
ZV_MAIN
{
    TL unsigned char x[8192];
    while (zv_read(stdin))
    {
        const char* op = zv_get("op");
        if (!op) continue;
        zv_begin(op);
        if (!strcmp(op, "Begin"))
        {
            reset(); ndt = 0;
            esz = zv_arg("esz", 4); if (!esz || esz > 8000) esz = 4;
            zv_int("id", zv_argi("id", 0)); zv_usz("esz", esz); zv_end(); continue;
        }
        ndt = 0; zv_op_begin(); zv_cursize = 0;
        if (alive) { ZyanUSize n = 0; ZyanListGetSize(&list, &n); zv_cursize = n < 10000000 ? (long)n : 0; }
        ZyanStatus st = ZYAN_STATUS_SUCCESS; long val = -1;
        long xv = zv_argi("x", 0) & 0xFF; enc(xv, x);
        size_t i = zv_arg("i", 0), j = zv_arg("j", 0), n = zv_arg("n", 0);
        ctor_val = xv; ctor_fail = (int)zv_argi("cf", 0); ctor_calls = 0;
#define IS(name) (!strcmp(op, name))
        int creates = IS("Init") || IS("InitEx") || IS("InitBuf"), needs_node = IS("Remove") || IS("RemoveRange") || IS("Set") || IS("Get") || IS("Next") || IS("Prev");
        if (IS("RemoveRange") && j < i) { size_t t = i; i = j; j = t; }
        if ((creates && alive) || (!creates && !IS("Null") && !IS("Giant") && !alive) || (needs_node && (i >= (size_t)zv_cursize)) || (IS("RemoveRange") && j >= (size_t)zv_cursize))
        {
            zv_len = 0; zv_begin("Skip"); project(); zv_end(); continue;
        }
        if (creates)
        {
            int d = (int)zv_argi("dtor", 0); size_t room = zv_arg("room", 0), ext = zv_arg("ext", 0);
            zv_bool("dtor", d);
#ifndef ZYAN_NO_LIBC
            if (IS("Init")) st = ZyanListInit(&list, esz, d ? dtor : 0); else
#else
            if (IS("Init")) st = ZyanListInitEx(&list, esz, d ? dtor : 0, zv_alloc_custom()); else
#endif
            if (IS("InitEx")) st = ZyanListInitEx(&list, esz, d ? dtor : 0, zv_alloc_custom());
            else
            {
                /* the documented size of a buffer for `room` items, plus some bytes */
                ext %= sizeof(ZyanListNode) + esz;
                fcap = room * (sizeof(ZyanListNode) + esz) + ext; if (!fcap) fcap = 1;
                zv_usz("room", room);
                fbuf = malloc(fcap); memset(fbuf, 0x5A, fcap); fixed_ = 1;
                st = ZyanListInitCustomBuffer(&list, esz, d ? dtor : 0, fbuf, fcap);
            }
            alive = ZYAN_SUCCESS(st);
        } else
        if (IS("Destroy")) { st = ZyanListDestroy(&list); alive = 0; free(fbuf); fbuf = 0; fixed_ = 0; memset(&list, 0xCC, sizeof list); } else
        if (IS("PushBack")) { zv_int("x", xv); st = ZyanListPushBack(&list, x); } else
        if (IS("PushFront")) { zv_int("x", xv); st = ZyanListPushFront(&list, x); } else
        if (IS("EmplaceBack") || IS("EmplaceFront") || IS("EmplaceBackRaw") || IS("EmplaceFrontRaw"))
        {
            void* p = 0; int raw = IS("EmplaceBackRaw") || IS("EmplaceFrontRaw");
            zv_int("x", xv); zv_bool("cf", ctor_fail);
            st = (IS("EmplaceBack") || IS("EmplaceBackRaw")) ? ZyanListEmplaceBack(&list, &p, raw ? 0 : ctor) : ZyanListEmplaceFront(&list, &p, raw ? 0 : ctor);
            if (ZYAN_SUCCESS(st) && raw) memcpy(p, x, esz);
            if (ZYAN_SUCCESS(st)) val = p ? dec(p) : -3;
            zv_int("cc", ctor_calls);
        } else
        if (IS("PopBack")) st = ZyanListPopBack(&list); else
        if (IS("PopFront")) st = ZyanListPopFront(&list); else
        if (IS("Remove")) { zv_usz("i", i); st = ZyanListRemove(&list, node_at(i)); } else
        if (IS("RemoveRange")) { zv_usz("i", i); zv_usz("j", j); st = ZyanListRemoveRange(&list, node_at(i), node_at(j)); } else
        if (IS("Set")) { zv_usz("i", i); zv_int("x", xv); st = ZyanListSetNodeData(&list, node_at(i), x); } else
        if (IS("Get"))
        {
            /* all four ways to read an item have to agree */
            const ZyanListNode* nd = node_at(i); const void* p = 0; void* q = 0; zv_usz("i", i);
            st = ZyanListGetNodeDataEx(nd, &p); ZyanStatus s2 = ZyanListGetNodeDataMutableEx(nd, &q);
            val = dec(ZyanListGetNodeData(nd));
            if (s2 != st || !p || !q || dec(p) != val || dec(q) != val || dec(ZyanListGetNodeDataMutable(nd)) != val || dec((const unsigned char*)&ZYAN_LIST_GET(unsigned char, nd)) != val) val = -5;
        } else
        if (IS("Next") || IS("Prev"))
        {
            const ZyanListNode* nd = node_at(i); zv_usz("i", i);
            st = IS("Next") ? ZyanListGetNextNode(&nd) : ZyanListGetPrevNode(&nd);
            val = nd ? dec(ZyanListGetNodeData(nd)) : -1;
        } else
        if (IS("Clear")) st = ZyanListClear(&list); else
        if (IS("Resize"))
        {
            zv_usz("n", n); zv_int("x", xv);
            st = ZyanListResize(&list, n);
            ZyanUSize now = 0; ZyanListGetSize(&list, &now);
            if (now < 10000000)
            {
                size_t k = 0; const ZyanListNode* nd = 0; ZyanListGetHeadNode(&list, &nd);
                while (nd && k < now) { if (k >= (size_t)zv_cursize) memcpy(ZyanListGetNodeDataMutable(nd), x, esz); ZyanListGetNextNode(&nd); ++k; }
            }
        } else
        if (IS("ResizeEx")) { zv_usz("n", n); zv_int("x", xv); st = ZyanListResizeEx(&list, n, x); } else
        if (IS("Giant")) { long k = zv_argi("k", 0); int buf = zv_argi("buf", 0) != 0; zv_bool("buf", buf); val = giant(k, zv_arg("d", 0) % 64, buf, &st); } else
        if (IS("Null")) { long k = zv_argi("k", 0); zv_int("k", k); st = nullcall(k); }
        else { fprintf(stderr, "unknown op %s\n", op); return 76; }
        zv_st(st); zv_int("val", val);
        project(); zv_end();
    }
    return 0;
}
#include "threads.h"
