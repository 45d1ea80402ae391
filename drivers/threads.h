/* Runs the scripts of a group in threads of their own (ZV_THREADS), each group in a process of its own: what the
 * library sets up on first use is set up while threads run.
 * Input: `op=Group`, then the scripts (each starts with `op=Begin`). ZV_THREADS == 2: one script that sets the
 * objects up, and then what every thread does with them (each part starts with `op=Fork`). */
#ifdef ZV_THREADS
#include <pthread.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
typedef struct { char** src; int n; pthread_t th; char* rec; size_t len; } zv_job;
static pthread_barrier_t zv_bar;
static void* zv_thread(void* p)
{
    zv_job* j = p; zv_src = j->src; zv_nsrc = j->n;
    pthread_barrier_wait(&zv_bar);
    int rc = zv_main(); if (rc) _exit(rc);
    j->rec = zv_rec; j->len = zv_reclen;
    free(zv_linebuf);
    return 0;
}
static void zv_dump(const char* p, size_t n) { while (n) { ssize_t w = write(zv_fd, p, n); if (w <= 0) _exit(78); p += w; n -= (size_t)w; } }
int main(void)
{
    size_t cap = 0, n = 0; char* t = 0; ssize_t r;
    do { if (n + 65536 > cap) t = realloc(t, cap = 2 * cap + 131072); r = read(0, t + n, cap - n - 1); if (r > 0) n += (size_t)r; } while (r > 0);
    t[n] = 0;
    int lines = 0, k = 0; for (size_t i = 0; i < n; ++i) lines += t[i] == '\n';
    char** l = calloc((size_t)lines + 2, sizeof *l);
    for (char* p = t; *p && k < lines; ) { char* e = strchr(p, '\n'); *e = 0; l[k++] = p; p = e + 1; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
    for (int i = 0; i < k; )
    {
        zv_job jobs[16]; int m = 0;
        pid_t pid = fork();
        if (pid < 0) _exit(80);
        if (pid)
        {
            int st = 0;
            while (waitpid(pid, &st, 0) < 0) ;
            if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(99); }
            if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
            ++i; while (i < k && strncmp(l[i], "op=Group", 8)) ++i;
            continue;
        }
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(100);
        ++i;                                        /* op=Group */
        memset(jobs, 0, sizeof jobs);
#if ZV_THREADS == 2
        int b = i; while (i < k && strncmp(l[i], "op=Fork", 7)) ++i;
        zv_src = l + b; zv_nsrc = i - b; zv_reclen = 0;
        int rc = zv_main(); if (rc) _exit(rc);
        zv_dump(zv_rec, zv_reclen); zv_reclen = 0;
#define START "op=Fork"
#else
#define START "op=Begin"
#endif
        while (i < k && strncmp(l[i], "op=Group", 8) && m < 16)
        {
            if (!strncmp(l[i], START, strlen(START))) { jobs[m++].src = l + i; }
            if (m) ++jobs[m - 1].n;
            ++i;
        }
#if ZV_THREADS == 2
        for (int j = 0; j < m; ++j) { ++jobs[j].src; --jobs[j].n; }
#endif
        zv_side = m > 1 ? (unsigned)m : 0;                  /* all the same? (the first line has a number) */
        for (int j = 1; j < m && zv_side; ++j)
            if (jobs[j].n != jobs[0].n) zv_side = 0;
            else for (int x = 1; x < jobs[0].n && zv_side; ++x) if (strcmp(jobs[j].src[x], jobs[0].src[x])) zv_side = 0;
        pthread_barrier_init(&zv_bar, 0, (unsigned)m);
        for (int j = 0; j < m; ++j) if (pthread_create(&jobs[j].th, &at, zv_thread, &jobs[j])) _exit(80);
        for (int j = 0; j < m; ++j) pthread_join(jobs[j].th, 0);
        for (int j = 0; j < m; ++j)
        {
#if ZV_THREADS == 2
            zv_dump("{\"op\":\"Fork\"}\n", 14);
#endif
            zv_dump(jobs[j].rec, jobs[j].len); free(jobs[j].rec);
        }
        pthread_barrier_destroy(&zv_bar);
        exit(0);
    }
    return 0;
}
#endif
