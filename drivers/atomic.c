#include "mt.h"
#ifndef ZV_CXX
#define ZV_ATOMIC_IMPL
#endif
#include "atomic_ops.h"

box32 b32; box64 b64; boxp bp;
static int bits(int w) { return w ? w : (int)sizeof(bp.v.value) * 8; }
static unsigned long long load(int w) { return w == 32 ? b32.v.value : w == 64 ? b64.v.value : (unsigned long long)(uintptr_t)bp.v.value; }
static void store(int w, unsigned long long v) { if (w == 32) b32.v.value = (ZyanU32)v; else if (w == 64) b64.v.value = v; else bp.v.value = (ZyanVoidPointer)(uintptr_t)v; }
static int intact(void)
{
    int ok = 1;
    for (int i = 0; i < 32; ++i) ok &= b32.pre[i] == 0x5A && b32.post[i] == 0x5A && b64.pre[i] == 0x5A && b64.post[i] == 0x5A && bp.pre[i] == 0x5A && bp.post[i] == 0x5A;
    return ok;
}
static void limbs(const char* k, unsigned long long v, int w) { long l[4]; for (int i = 0; i < 4; ++i) l[i] = (long)(v >> 16 * i & 0xFFFF); zv_ints(k, l, (size_t)bits(w) / 16); }
static unsigned long long arg(const char* k)
{
    long l[4] = {0}; zv_list(k, l, 4);
    return (unsigned long long)l[0] | (unsigned long long)l[1] << 16 | (unsigned long long)l[2] << 32 | (unsigned long long)l[3] << 48;
}
/* free running */
static int rw, rform, rn, rthreads; static unsigned seed0; static unsigned long long base; static atomic_int ready;
static long rets[NW][20000]; static int nrets[NW], ups[NW], downs[NW];
long plain_;
static void meet(void) { atomic_fetch_add(&ready, 1); while (atomic_load(&ready) < rthreads) sched_yield(); }
static void race(int t)
{
    unsigned r = seed0 * 31 + (unsigned)t * 7919; unsigned long long seen = base;
    meet();
    for (int i = 0; i < rn; ++i)
    {
        int f = 1 + (int)(zv_rnd(&r) % 4); if (f == 4) f = 3;
        unsigned long long c = 0, v = 0;
        if (f == 3) { c = zv_rnd(&r) % 4 ? seen : base + zv_rnd(&r) % 3 - 1; v = base + zv_rnd(&r) % 5 - 2; }
        if (bits(rw) == 32) { c = (ZyanU32)c; v = (ZyanU32)v; }
        zv_rec* e = zv_slot(); e->inv = 1; e->t = t; e->f = f; e->a = c; e->b = v;
        unsigned long long x = atomic_perform(rw, f, rform == 3 ? (int)(zv_rnd(&r) % 3) : rform, c, v);
        e = zv_slot(); e->inv = 0; e->t = t; e->f = f; e->r = x;
        seen = f == 3 && x == c ? v : x;
        if (zv_rnd(&r) % 4 == 0) sched_yield();
    }
}
static void count(int t)      /* increments only: every thread keeps the values it got */
{
    nrets[t] = 0; meet();
    for (int i = 0; i < rn; ++i) { unsigned long long x = atomic_perform(rw, 1, rform % 3, 0, 0) - base; rets[t][nrets[t]++] = (long)(bits(rw) == 32 ? (ZyanU32)x : x); }
}
static void mixed(int t)      /* increments, decrements and additions by compare-exchange loops */
{
    unsigned r = seed0 + (unsigned)t * 101; int down; ups[t] = downs[t] = 0;
    meet();
    for (int i = 0; i < rn; ++i) switch (zv_rnd(&r) % 4)
    {
    case 0: atomic_perform(rw, 1, rform % 3, 0, 0); ++ups[t]; break;
    case 1: atomic_perform(rw, 2, rform % 3, 0, 0); ++downs[t]; break;
    default:
        down = (seed0 & 1) && zv_rnd(&r) % 2;      /* stays around the value it began with */
        for (unsigned long long x = base;;)
        {
            unsigned long long n = down ? x - 1 : x + 1; if (bits(rw) == 32) n = (ZyanU32)n;
            unsigned long long y = atomic_perform(rw, 3, rform % 3, x, n);
            if (y == x) { ++*(down ? &downs[t] : &ups[t]); break; }
            x = y;
        }
    }
}
static void lock(int t)       /* a spin lock made from compare-exchange protects plain data */
{
    (void)t; meet();
    for (int i = 0; i < rn; ++i)
    {
        while (atomic_perform(rw, 3, rform % 3, 0, (unsigned long long)t) != 0) sched_yield();
        ++plain_;
        atomic_perform(rw, 3, rform % 3, (unsigned long long)t, 0);
    }
}
static void all_run(void (*fn)(int), int threads)
{
    atomic_store(&ready, 0); atomic_store(&zv_nlog, 0); rthreads = threads;
    for (int t = 1; t <= threads; ++t) { zv_w[t].fn = fn; atomic_store(&zv_w[t].phase, 1); sem_post(&zv_w[t].go); }
    for (int t = 1; t <= threads; ++t) { while (!zv_returned(t)) zv_sleep_us(50); atomic_store(&zv_w[t].phase, 0); }
}
static void script(int from, int to)
{
    memset(&b32, 0x5A, sizeof b32); memset(&b64, 0x5A, sizeof b64); memset(&bp, 0x5A, sizeof bp);
    int spawned = 0;
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        int w = (int)zv_argi("w", 32), form = (int)zv_argi("form", 0);
        if (w != 32 && w != 64) w = 0;
        zv_int("w", w); zv_int("form", form);
        unsigned long long c = arg("c"), v = arg("v");
        if (IS("Store")) { store(w, v); limbs("v", load(w), w); limbs("r", load(w), w); }
        else if (IS("Inc") || IS("Dec")) limbs("r", atomic_perform(w, IS("Inc") ? 1 : 2, form, 0, 0), w);
        else if (IS("Cas")) { limbs("c", c, w); limbs("v", v, w); limbs("r", atomic_perform(w, 3, form, c, v), w); }
        else if (IS("Race") || IS("Count") || IS("Mixed") || IS("Lock"))
        {
            if (!spawned) { for (int t = 1; t < NW; ++t) zv_spawn(t); spawned = 1; }
            int threads = (int)zv_argi("threads", 3); if (threads < 1 || threads >= NW) threads = 3;
            rn = (int)zv_argi("n", 8); if (rn > 20000) rn = 20000;
            seed0 = (unsigned)zv_argi("seed", 1); rw = w; rform = form;
            if (IS("Lock")) store(w, 0); else store(w, v);
            base = load(w); plain_ = 0;
            limbs("v", base, w); zv_int("n", rn); zv_int("threads", threads);
            all_run(IS("Race") ? race : IS("Count") ? count : IS("Mixed") ? mixed : lock, threads);
            limbs("r", load(w), w);
            if (IS("Race"))
            {
                int n = atomic_load(&zv_nlog);
                zv_put(",\"log\":[");
                for (int i = 0; i < n; ++i)
                {
                    zv_rec* e = &zv_log_[i];
                    zv_put("%s{\"inv\":%s,\"t\":%d,\"f\":\"%s\"", i ? "," : "", e->inv ? "true" : "false", e->t, e->f == 1 ? "Inc" : e->f == 2 ? "Dec" : "Cas");
                    limbs("c", e->a, w); limbs("v", e->b, w); limbs("r", e->r, w); zv_put("}");
                }
                zv_put("]");
            }
            if (IS("Count")) { zv_put(",\"rets\":["); for (int t = 1; t <= threads; ++t) { zv_put("%s[", t > 1 ? "," : ""); for (int i = 0; i < nrets[t]; ++i) zv_put("%s%ld", i ? "," : "", rets[t][i] < 0 || rets[t][i] > 1000000 ? -1 : rets[t][i]); zv_put("]"); } zv_put("]"); }
            if (IS("Mixed")) { long u = 0, d = 0; for (int t = 1; t <= threads; ++t) { u += ups[t]; d += downs[t]; } zv_int("up", u); zv_int("down", d); }
            if (IS("Lock")) zv_int("plain", plain_);
        }
        else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        limbs("now", load(w), w); zv_bool("intact", intact());
        zv_end();
    }
    _exit(0);
}
int main(void) { return zv_scripts(script); }
