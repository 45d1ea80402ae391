#include "mt.h"
#include <Zycore/API/Thread.h>

#define NK 6                     /* slots 1..NK-1 */
static ZyanThreadTlsIndex idx[NK]; static int live[NK];
static _Thread_local int me;
/* the values: both halves of the stored pointer carry the number, so that a value cut to 32 bits does not pass */
static void* enc(long v) { return (void*)(uintptr_t)((unsigned long long)(unsigned)v << 32 | (unsigned)v); }
static long dec(void* p) { unsigned long long x = (unsigned long long)(uintptr_t)p; return (unsigned)x == (unsigned)(x >> 32) ? (long)(int)(unsigned)x : 999999; }
/* destructor calls */
typedef struct { int d, t; long v; } fin_t;
static fin_t fins[4096]; static atomic_int nfin;
static void fin(int d, void* p) { int k = atomic_fetch_add(&nfin, 1); if (k < 4096) { fins[k].d = d; fins[k].t = me; fins[k].v = dec(p); } }
static void d1(void* p) { fin(1, p); }
static void d2(void* p) { fin(2, p); }
static void d3(void* p) { fin(3, p); }
static const ZyanThreadTlsCallback dtor[4] = { 0, d1, d2, d3 };
/* one call of a worker */
typedef struct { int op, k, d; long v; ZyanStatus st; long out; ZyanThreadId id; ZyanThread th; ZyanThreadTlsIndex ix; } call;
static call calls[NW];
static void perform(call* c)
{
    void* p;
    switch (c->op)
    {
    case 1: c->st = ZyanThreadTlsSetValue(c->ix, enc(c->v)); break;
    case 2: p = enc(-77); c->st = ZyanThreadTlsGetValue(c->ix, &p); c->out = dec(p); break;
    case 3: c->ix = (ZyanThreadTlsIndex)-1; c->st = ZyanThreadTlsAlloc(&c->ix, dtor[c->d]); break;
    case 4: c->st = ZyanThreadTlsFree(c->ix); break;
    case 5: c->id = 0; c->st = ZyanThreadGetCurrentThreadId(&c->id); break;
    case 6: c->st = ZyanThreadGetCurrentThread(&c->th); break;
    }
}
static void work(int t) { me = t; perform(&calls[t]); }
static void on(int t, call* c)
{
    if (!t) { perform(c); return; }
    calls[t] = *c; zv_command(t, work);
    if (!zv_returned(t)) { fprintf(stderr, "drv: blocked\n"); abort(); }
    atomic_store(&zv_w[t].phase, 0); *c = calls[t];
}
/* identifiers as small numbers */
static ZyanThreadId ids[64]; static int nids;
static int idnum(ZyanThreadId i) { for (int k = 0; k < nids; ++k) if (ids[k] == i) return k + 1; if (nids < 64) ids[nids++] = i; return nids; }
/* all slots the system has */
#define CAP 5000
static ZyanThreadTlsIndex all[CAP]; static int nall; static ZyanStatus all_st; static long all_v[CAP]; static int all_mode;
static void all_set(int t) { (void)t; for (int i = 0; i < nall; ++i) ZyanThreadTlsSetValue(all[i], enc(all_mode * (i + 1))); }
static void all_get(int t) { (void)t; for (int i = 0; i < nall; ++i) { void* p = enc(-77); ZyanThreadTlsGetValue(all[i], &p); all_v[i] = dec(p); } }
static void cmd(int t, void (*fn)(int)) { zv_command(t, fn); atomic_store(&zv_w[t].phase, 0); }
/* free running threads */
static unsigned seed0; static int run_n, run_threads; static atomic_int ready;
static void meet(void) { atomic_fetch_add(&ready, 1); while (atomic_load(&ready) < run_threads) sched_yield(); }
static void burst(int t)
{
    unsigned r = seed0 * 31 + (unsigned)t * 7919; me = t;
    meet();
    for (int i = 0; i < run_n; ++i)
    {
        int k = 1 + (int)(zv_rnd(&r) % (NK - 1)); if (!live[k]) continue;
        call c = { .op = 1 + (int)(zv_rnd(&r) % 2), .k = k, .ix = idx[k], .v = (int)(zv_rnd(&r) % 5) ? t * 100 + i : 0 };
        perform(&c);
        zv_rec* e = zv_slot(); e->t = t; e->f = c.op; e->v = k; e->a = (unsigned long long)(c.op == 1 ? c.v : c.out); e->r = c.st;
    }
}
static void storm(int t)
{
    unsigned r = seed0 * 17 + (unsigned)t * 7919; me = t;
    call held[4]; int nh = 0;
    meet();
    for (int i = 0; i < run_n || nh; ++i)
    {
        if (i < run_n && nh < 4 && zv_rnd(&r) % 2)
        {
            call c = { .op = 3 }; perform(&c);
            zv_rec* e = zv_slot(); e->t = t; e->f = 3; e->v = (long)c.ix; e->r = c.st; e->a = 0;
            if (c.st != ZYAN_STATUS_SUCCESS) continue;
            held[nh++] = c;
            call s = { .op = 1, .ix = c.ix, .v = t * 100 + i }; perform(&s);
            e = zv_slot(); e->t = t; e->f = 1; e->v = (long)c.ix; e->a = (unsigned long long)s.v; e->r = s.st;
        }
        else if (nh)
        {
            call c = held[--nh];
            c.op = 2; perform(&c);
            zv_rec* e = zv_slot(); e->t = t; e->f = 2; e->v = (long)c.ix; e->a = (unsigned long long)c.out; e->r = c.st;
            e = zv_slot(); e->t = t; e->f = 4; e->v = (long)c.ix; e->a = 0; e->r = 0;
            c.op = 4; perform(&c); e->r = c.st;
        }
        if (i > run_n + 100) break;
    }
}
static void all_run(void (*fn)(int), int threads)
{
    atomic_store(&ready, 0); atomic_store(&zv_nlog, 0); run_threads = threads;
    for (int t = 1; t <= threads; ++t) { zv_w[t].fn = fn; atomic_store(&zv_w[t].phase, 1); sem_post(&zv_w[t].go); }
    for (int t = 1; t <= threads; ++t) { while (!zv_returned(t)) zv_sleep_us(50); atomic_store(&zv_w[t].phase, 0); }
}
static void put_fins(void)
{
    int n = atomic_exchange(&nfin, 0);
    zv_put(",\"fin\":[");
    for (int k = 0; k < n; ++k) zv_put("%s{\"d\":%d,\"t\":%d,\"v\":%ld}", k ? "," : "", fins[k].d, fins[k].t, fins[k].v);
    zv_put("]");
}
static void script(int from, int to)
{
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        int t = (int)zv_argi("t", 0), k = (int)zv_argi("k", 1), bad = 0;
        if (t < 0 || t >= NW) t = 0;
        if (k < 1 || k >= NK) k = 1;
        int called = IS("Set") || IS("Get") || IS("Alloc") || IS("Free") || IS("Id") || IS("Self");
        if (called && t && !zv_w[t].alive) bad = 1;
        if (IS("Spawn") && (!t || zv_w[t].alive)) bad = 1;
        if (IS("Exit") && (!t || !zv_w[t].alive)) bad = 1;
        if (IS("Alloc") && live[k]) bad = 1;
        if (IS("Get") && !live[k]) bad = 1;
        /* the index of a released slot may have been given out again */
        if ((IS("Set") || IS("Free")) && !live[k]) { if (!idx[k]) bad = 1; for (int j = 1; j < NK; ++j) if (live[j] && idx[j] == idx[k]) bad = 1; }
        int threads = (int)zv_argi("threads", 2);
        if (IS("Burst") || IS("Storm")) for (int j = 1; j <= threads; ++j) if (!zv_w[j].alive) bad = 1;
        if (IS("Exhaust") && !zv_w[1].alive) bad = 1;
        if (bad) { zv_len = 0; zv_begin("Skip"); put_fins(); zv_end(); continue; }
        zv_int("t", t); zv_int("k", k);
        call c = { .k = k, .d = (int)zv_argi("d", 0) & 3, .v = zv_argi("v", 0), .ix = idx[k] };
        if (IS("Spawn")) { zv_spawn(t); zv_str("st", "SUCCESS"); }
        else if (IS("Exit")) { zv_finish(t); zv_str("st", "SUCCESS"); }
        else if (IS("Set")) { c.op = 1; on(t, &c); zv_int("v", c.v); zv_st(c.st); }
        else if (IS("Get")) { c.op = 2; on(t, &c); zv_st(c.st); zv_int("r", c.out); }
        else if (IS("Alloc")) { c.op = 3; on(t, &c); zv_st(c.st); zv_int("d", c.d); zv_int("ix", (long)(int)c.ix); if (c.st == ZYAN_STATUS_SUCCESS) { live[k] = 1; idx[k] = c.ix; } }
        else if (IS("Free")) { c.op = 4; on(t, &c); zv_st(c.st); if (c.st == ZYAN_STATUS_SUCCESS) live[k] = 0; }
        else if (IS("Id")) { c.op = 5; on(t, &c); zv_st(c.st); zv_int("r", idnum(c.id)); }
        else if (IS("Self")) { c.op = 6; on(t, &c); zv_st(c.st); zv_bool("r", pthread_equal(c.th, t ? zv_w[t].th : pthread_self())); }
        else if (IS("Exhaust"))
        {
            nall = 0;
            while (nall < CAP) { ZyanThreadTlsIndex x = (ZyanThreadTlsIndex)-1; all_st = ZyanThreadTlsAlloc(&x, nall % 2 ? d3 : 0); if (all_st != ZYAN_STATUS_SUCCESS) { zv_int("ixf", (long)(int)x); break; } all[nall++] = x; }
            zv_int("n", nall); zv_st(all_st);
            long* ix = malloc(sizeof(long) * CAP); for (int i = 0; i < nall; ++i) ix[i] = (long)all[i];
            zv_ints("ixs", ix, (size_t)nall); free(ix);
            all_get(0); zv_ints("a0", all_v, (size_t)nall);
            cmd(1, all_get); zv_ints("a", all_v, (size_t)nall);       /* before the first store */
            all_mode = 1; cmd(1, all_set);
            all_mode = -1; all_set(0);
            cmd(1, all_get); zv_ints("b", all_v, (size_t)nall);
            all_get(0); zv_ints("c", all_v, (size_t)nall);
            int freed = 0; for (int i = 0; i < nall; ++i) freed += ZyanThreadTlsFree(all[i]) == ZYAN_STATUS_SUCCESS;
            zv_int("freed", freed);
        }
        else if (IS("Burst") || IS("Storm"))
        {
            run_n = (int)zv_argi("n", 20); seed0 = (unsigned)zv_argi("seed", 1);
            all_run(IS("Burst") ? burst : storm, threads);
            zv_int("n", run_n); zv_int("threads", threads); zv_str("st", "SUCCESS");
            zv_put(",\"log\":[");
            int n = atomic_load(&zv_nlog);
            for (int i = 0; i < n; ++i)
            {
                zv_rec* e = &zv_log_[i];
                zv_put("%s{\"t\":%d,\"f\":\"%s\",\"k\":%ld,\"v\":%lld", i ? "," : "", e->t, e->f == 1 ? "Set" : e->f == 2 ? "Get" : e->f == 3 ? "Alloc" : "Free", e->v, (long long)e->a);
                zv_str("r", zv_stname((ZyanStatus)e->r)); zv_put("}");
            }
            zv_put("]");
        }
        else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        put_fins(); zv_end();
    }
    _exit(0);
}
int main(void) { return zv_scripts(script); }
