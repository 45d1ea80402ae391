#include "mt.h"
#include <Zycore/API/Synchronization.h>

#define NS 3                     /* sections 1..NS-1 */
static ZyanCriticalSection cs[NS]; static int live[NS];
typedef struct { int op, s; ZyanStatus st; } call;   /* op: 1 enter, 2 try, 3 leave */
static call calls[NW];
static ZyanStatus try_(ZyanCriticalSection* c) { ZyanBool b = ZyanCriticalSectionTryEnter(c); return b == ZYAN_TRUE ? ZYAN_STATUS_TRUE : b == ZYAN_FALSE ? ZYAN_STATUS_FALSE : ZYAN_STATUS_FAILED; }
static ZyanStatus perform(int op, int s)
{
    return op == 1 ? ZyanCriticalSectionEnter(&cs[s]) : op == 2 ? try_(&cs[s]) : ZyanCriticalSectionLeave(&cs[s]);
}
static void work(int t) { calls[t].st = perform(calls[t].op, calls[t].s); }

/* free running */
static unsigned seed0; static int race_n, race_s; static atomic_int ready; static int race_threads;
static long plain_[NS]; static int who[NS];
static long burst_clashes[NW];
static void meet(void) { atomic_fetch_add(&ready, 1); while (atomic_load(&ready) < race_threads) sched_yield(); }
static void race(int t)
{
    unsigned r = seed0 * 31 + (unsigned)t * 7919; int depth[NS] = {0}; int n = race_n;
    meet();
    while (n > 0 || depth[1] || depth[2])
    {
        int s = race_s == 1 ? 1 : 1 + (int)(zv_rnd(&r) % 2), f;
        /* sections are entered in ascending order only, so that the threads cannot wait for each other in a circle */
        if (n <= 0) { f = 3; s = depth[2] ? 2 : 1; }
        else
        {
            unsigned k = zv_rnd(&r) % 10;
            f = k < 4 ? 1 : k < 6 ? 2 : 3;
            if (f == 1 && s == 1 && depth[2] && !depth[1]) f = 2;
            if (f != 3 && depth[s] >= 3) f = 3;
        }
        --n;
        zv_rec* e = zv_slot(); e->inv = 1; e->t = t; e->f = f; e->v = s;
        ZyanStatus st = perform(f, s);
        if (f != 3 && (st == ZYAN_STATUS_SUCCESS || st == ZYAN_STATUS_TRUE)) { ++depth[s]; ++plain_[s]; }
        if (f == 3 && st == ZYAN_STATUS_SUCCESS) --depth[s];
        if (depth[s] < 0) depth[s] = 0;
        zv_rec* x = zv_slot(); x->inv = 0; x->t = t; x->f = f; x->v = s; x->r = st;
        if (zv_rnd(&r) % 4 == 0) sched_yield();
        if (n < -60) break;
    }
}
static void burst(int t)
{
    unsigned r = seed0 + (unsigned)t; burst_clashes[t] = 0;
    meet();
    for (int i = 0; i < race_n; ++i)
    {
        int deep = (int)(zv_rnd(&r) % 3), got;
        if (zv_rnd(&r) % 4 == 0) { while (ZyanCriticalSectionTryEnter(&cs[1]) != ZYAN_TRUE) sched_yield(); got = 1; }
        else got = ZyanCriticalSectionEnter(&cs[1]) == ZYAN_STATUS_SUCCESS;
        if (!got) { ++burst_clashes[t]; continue; }
        who[1] = t;
        for (int k = 0; k < deep; ++k) if ((k ? ZyanCriticalSectionEnter(&cs[1]) != ZYAN_STATUS_SUCCESS : ZyanCriticalSectionTryEnter(&cs[1]) != ZYAN_TRUE)) ++burst_clashes[t];
        long v = plain_[1]; for (volatile int d = 0; d < 10; ++d) ; plain_[1] = v + 1;
        for (int k = 0; k < deep; ++k) if (ZyanCriticalSectionLeave(&cs[1]) != ZYAN_STATUS_SUCCESS) ++burst_clashes[t];
        if (who[1] != t) ++burst_clashes[t];
        if (ZyanCriticalSectionLeave(&cs[1]) != ZYAN_STATUS_SUCCESS) ++burst_clashes[t];
    }
}
static void all_run(void (*fn)(int), int threads)
{
    atomic_store(&ready, 0); atomic_store(&zv_nlog, 0); race_threads = threads;
    for (int t = 1; t <= threads; ++t) { zv_w[t].fn = fn; atomic_store(&zv_w[t].phase, 1); sem_post(&zv_w[t].go); }
    for (int t = 1; t <= threads; ++t) { while (!zv_returned(t)) zv_sleep_us(50); atomic_store(&zv_w[t].phase, 0); }
}
static void back(void)
{
    /* calls that were blocked earlier and returned meanwhile */
    zv_put(",\"back\":["); int first = 1;
    for (int t = 1; t < NW; ++t) if (zv_w[t].pending && zv_returned(t))
    {
        zv_put("%s{\"t\":%d,\"s\":%d", first ? "" : ",", t, calls[t].s); zv_st(calls[t].st); zv_put("}"); first = 0;
        zv_w[t].pending = 0; atomic_store(&zv_w[t].phase, 0);
    }
    zv_put("]");
}
static void script(int from, int to)
{
    memset(cs, 0xCC, sizeof cs);            /* what is uninitialized is not zero */
    for (int t = 1; t < NW; ++t) zv_spawn(t);
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        int t = (int)zv_argi("t", 1), s = (int)zv_argi("s", 1);
        if (t < 1 || t >= NW) t = 1;
        if (s < 1 || s >= NS) s = 1;
        int threaded = IS("Enter") || IS("Try") || IS("Leave"), runs = IS("Race") || IS("Burst"), bad = 0;
        if (threaded && (zv_w[t].pending || !live[s])) bad = 1;
        if (IS("Create") && live[s]) bad = 1;
        if (IS("Delete") && !live[s]) bad = 1;
        if (runs) { for (int k = 1; k < NW; ++k) if (zv_w[k].pending) bad = 1; if (!live[1] || (!live[2] && IS("Race"))) bad = 1; }
        if (bad) { zv_len = 0; zv_begin("Skip"); back(); zv_end(); continue; }
        zv_int("t", t); zv_int("s", s);
        if (IS("Create")) { ZyanStatus st = ZyanCriticalSectionInitialize(&cs[s]); live[s] = st == ZYAN_STATUS_SUCCESS; zv_st(st); }
        else if (IS("Delete")) { ZyanStatus st = ZyanCriticalSectionDelete(&cs[s]); if (st == ZYAN_STATUS_SUCCESS) { live[s] = 0; memset(&cs[s], 0xCC, sizeof cs[s]); } zv_st(st); }
        else if (IS("Wait")) { for (long k = zv_argi("ms", 1); k > 0; k -= 20) zv_sleep_us(20000); zv_st(ZYAN_STATUS_SUCCESS); }
        else if (threaded)
        {
            calls[t].op = IS("Enter") ? 1 : IS("Try") ? 2 : 3; calls[t].s = s;
            zv_command(t, work);
            if (zv_returned(t)) { zv_st(calls[t].st); atomic_store(&zv_w[t].phase, 0); }
            else { zv_str("st", "BLOCKED"); zv_w[t].pending = 2; }
        }
        else if (runs)
        {
            int threads = (int)zv_argi("threads", 3); if (threads < 1 || threads >= NW) threads = 3;
            race_n = (int)zv_argi("n", 8); seed0 = (unsigned)zv_argi("seed", 1); plain_[1] = plain_[2] = 0; race_s = (int)zv_argi("one", 0);
            all_run(IS("Race") ? race : burst, threads);
            zv_int("n", race_n); zv_int("threads", threads); zv_str("st", "SUCCESS"); zv_int("c1", plain_[1]); zv_int("c2", plain_[2]);
            long cl = 0; for (int k = 1; k < NW; ++k) { cl += burst_clashes[k]; burst_clashes[k] = 0; } zv_int("clash", cl);
            zv_put(",\"log\":[");
            int n = atomic_load(&zv_nlog);
            for (int k = 0; k < n; ++k)
            {
                zv_rec* e = &zv_log_[k];
                zv_put("%s{\"inv\":%s,\"t\":%d,\"f\":\"%s\",\"s\":%ld", k ? "," : "", e->inv ? "true" : "false", e->t, e->f == 1 ? "Enter" : e->f == 2 ? "Try" : "Leave", e->v);
                zv_str("r", e->inv ? "" : zv_stname((ZyanStatus)e->r)); zv_put("}");
            }
            zv_put("]");
        }
        else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        for (int k = 1; k < NW; ++k) if (zv_w[k].pending == 2 && k == t) zv_w[k].pending = 1; 
        back(); zv_end();
    }
    _exit(0);
}
int main(void) { return zv_scripts(script); }
