/* Worker threads under the control of the script: one command at a time, and the driver sees whether
 * a command returned or is blocked (asleep inside of the call). Each script runs in its own process. */
#ifndef ZV_MT_H
#define ZV_MT_H
#include "drv.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <sched.h>

#define NW 5                      /* workers 1..NW-1 */
typedef struct
{
    pthread_t th; int alive; atomic_int phase; /* 0 idle, 1 commanded, 2 inside of the call, 3 returned */
    atomic_int tid; sem_t go; void (*fn)(int); int pending;
} zv_worker;
static zv_worker zv_w[NW];

static void zv_sleep_us(long us) { struct timespec t = {0, us * 1000}; nanosleep(&t, 0); }
static void* zv_worker_main(void* p)
{
    int t = (int)(intptr_t)p;
    atomic_store(&zv_w[t].tid, (int)syscall(SYS_gettid));
    for (;;)
    {
        while (sem_wait(&zv_w[t].go)) ;
        if (!zv_w[t].fn) return 0;
        atomic_store(&zv_w[t].phase, 2);
        zv_w[t].fn(t);
        atomic_store(&zv_w[t].phase, 3);
    }
}
static void zv_spawn(int t)
{
    zv_worker* w = &zv_w[t];
    sem_init(&w->go, 0, 0); atomic_store(&w->phase, 0); atomic_store(&w->tid, 0); w->fn = 0; w->pending = 0;
    if (pthread_create(&w->th, 0, zv_worker_main, (void*)(intptr_t)t)) { fprintf(stderr, "drv: no thread\n"); _exit(80); }
    w->alive = 1;
    while (!atomic_load(&w->tid)) sched_yield();
}
static void zv_finish(int t) { zv_w[t].fn = 0; sem_post(&zv_w[t].go); pthread_join(zv_w[t].th, 0); zv_w[t].alive = 0; sem_destroy(&zv_w[t].go); }
static int zv_asleep(int t)
{
    char f[64], b[512]; snprintf(f, sizeof f, "/proc/self/task/%d/stat", (int)atomic_load(&zv_w[t].tid));
    FILE* h = fopen(f, "r"); if (!h) return 1;
    size_t n = fread(b, 1, sizeof b - 1, h); fclose(h); b[n] = 0;
    char* p = strrchr(b, ')');
    return p && p[1] == ' ' && (p[2] == 'S' || p[2] == 'D');
}
/* Waits until every commanded worker returned or sleeps inside of its call. */
static void zv_settle(void)
{
    int calm = 0; long rounds = 0;
    for (int i = 0; i < 20000; ++i)
    {
        int busy = 0;
        for (int t = 1; t < NW; ++t) if (zv_w[t].alive) { int p = atomic_load(&zv_w[t].phase); if (p == 1 || p == 2) busy = 1; }
        if (!busy) return;
    }
    for (;;)
    {
        int busy = 0, awake = 0;
        for (int t = 1; t < NW; ++t) if (zv_w[t].alive)
        {
            int p = atomic_load(&zv_w[t].phase);
            if (p == 1) busy = awake = 1;
            if (p == 2) { busy = 1; if (!zv_asleep(t)) awake = 1; }
        }
        if (!busy) return;
        calm = awake ? 0 : calm + 1;
        if (calm >= 8) return;
        if (++rounds > 10000) return;      /* something spins: reported as not having returned */
        zv_sleep_us(250);
    }
}
static void zv_command(int t, void (*fn)(int))
{
    zv_w[t].fn = fn; atomic_store(&zv_w[t].phase, 1); sem_post(&zv_w[t].go);
    zv_settle();
}
static int zv_returned(int t) { return atomic_load(&zv_w[t].phase) == 3; }

/* ---- free running histories: calls and returns in real-time order ---- */
#define MAXLOG 4096
typedef struct { int inv, t, f; long v; unsigned long long a, b, r; } zv_rec;
static zv_rec zv_log_[MAXLOG]; static atomic_int zv_nlog;
static zv_rec* zv_slot(void)
{
    int k = atomic_fetch_add(&zv_nlog, 1);
    if (k >= MAXLOG) { fprintf(stderr, "drv: history too long\n"); _exit(79); }
    return &zv_log_[k];
}
static unsigned zv_rnd(unsigned* s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }

/* ---- one process per script ---- */
static char* zv_lines[20000]; static int zv_nlines;
static int zv_tokenize(char* line)
{
    zv_ntok = 0;
    for (char* t = strtok(line, " \n"); t && zv_ntok < ZV_MAXTOK; t = strtok(0, " \n"))
    {
        char* e = strchr(t, '='); if (!e) continue;
        *e = 0; zv_toks[zv_ntok].k = t; zv_toks[zv_ntok].v = e + 1; ++zv_ntok;
    }
    return zv_ntok;
}
static int zv_scripts(void (*script)(int from, int to))
{
    char* line = 0; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0 && zv_nlines < 20000) zv_lines[zv_nlines++] = strdup(line);
    for (int i = 0; i < zv_nlines; )
    {
        int j = i + 1;
        while (j < zv_nlines && strncmp(zv_lines[j], "op=Begin", 8)) ++j;
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) { fprintf(stderr, "drv: fork\n"); return 80; }
        if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); script(i, j); _exit(0); }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) ;
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); if (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGABRT) raise(WTERMSIG(st)); _exit(99); }
        if (WEXITSTATUS(st)) return WEXITSTATUS(st);
        i = j;
    }
    return 0;
}
#endif
