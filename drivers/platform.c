#include "mt.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/auxv.h>
#include <termios.h>
#include <pty.h>
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Terminal.h>

#define NP 8                     /* pages of the arena, in the middle of a reserved area */
#define GUARD 300
static size_t ps; static unsigned char* arena; static unsigned char* area;

/* ---- what the system says about pages ---- */
static char perm[NP + 1][4]; static int guards;
static void look(unsigned char* lo, size_t n, char (*out)[4], int* good)
{
    for (size_t i = 0; i < n; ++i) strcpy(out[i], "-");
    FILE* f = fopen("/proc/self/maps", "r"); if (!f) { fprintf(stderr, "drv: maps\n"); _exit(80); }
    char* line = 0; size_t cap = 0;
    if (good) *good = 0;
    while (getline(&line, &cap, f) > 0)
    {
        unsigned long a, b; char p[8]; if (sscanf(line, "%lx-%lx %7s", &a, &b, p) != 3) continue;
        for (size_t i = 0; i < n; ++i) { unsigned long x = (unsigned long)lo + i * ps; if (a <= x && x < b) snprintf(out[i], 4, "%c%c%c", p[0], p[1], p[2]); }
        if (good && !strncmp(p, "---", 3))
        {
            unsigned long g0 = (unsigned long)area, g1 = (unsigned long)arena, g2 = g1 + NP * ps, g3 = g2 + GUARD * ps;
            unsigned long l = a > g0 ? a : g0, h = b < g1 ? b : g1; if (l < h) *good += (int)((h - l) / ps);
            l = a > g2 ? a : g2; h = b < g3 ? b : g3; if (l < h) *good += (int)((h - l) / ps);
        }
    }
    free(line); fclose(f);
}
static void fill(int p, int g) { memset(arena + p * ps, g, ps); arena[p * ps] = 0xC3; /* ret */ }
static int content(int p)
{
    unsigned char* a = arena + p * ps; if (a[0] != 0xC3) return -1;
    for (size_t i = 2; i < ps; ++i) if (a[i] != a[1]) return -1;
    return a[1];
}
static sigjmp_buf env; static volatile sig_atomic_t armed;
static void fault(int s) { if (!armed) { signal(s, SIG_DFL); raise(s); return; } siglongjmp(env, 1); }
static int probe(int p, int how)
{
    volatile unsigned char* a = arena + p * ps; int ok = 0;
    struct sigaction sa = {0}, o1, o2, o3; sa.sa_handler = fault; sa.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &sa, &o1); sigaction(SIGBUS, &sa, &o2); sigaction(SIGILL, &sa, &o3);
    armed = 1;
    if (!sigsetjmp(env, 1))
    {
        if (how == 0) { unsigned char c = a[2]; (void)c; }
        if (how == 1) { __asm__ volatile("lock orb $0, %0" : "+m"(a[2])); }
        if (how == 2) { void (*fn)(void) = (void (*)(void))(uintptr_t)a; __asm__ volatile("call *%0" : : "r"(fn) : "memory"); }
        ok = 1;
    }
    armed = 0; sigaction(SIGSEGV, &o1, 0); sigaction(SIGBUS, &o2, 0); sigaction(SIGILL, &o3, 0);
    return ok;
}
static void setup(void)
{
    ps = getauxval(AT_PAGESZ); if (!ps) ps = 4096;
    area = mmap(0, (NP + 2 * GUARD) * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (area == MAP_FAILED) { fprintf(stderr, "drv: mmap\n"); _exit(80); }
    arena = area + GUARD * ps;
    mmap(arena, NP * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    for (int i = 0; i < NP; ++i) fill(i, 1);
}
static ZyanMemoryPageProtection prot(const char* s)
{
    return !strcmp(s, "R") ? ZYAN_PAGE_READONLY : !strcmp(s, "RW") ? ZYAN_PAGE_READWRITE : !strcmp(s, "X") ? ZYAN_PAGE_EXECUTE : !strcmp(s, "RX") ? ZYAN_PAGE_EXECUTE_READ : ZYAN_PAGE_EXECUTE_READWRITE;
}
static void put_pages(void)
{
    look(arena, NP, perm, &guards);
    zv_put(",\"pg\":["); for (int i = 0; i < NP; ++i) zv_put("%s\"%s\"", i ? "," : "", perm[i]); zv_put("]");
    long c[NP]; for (int i = 0; i < NP; ++i) c[i] = perm[i][0] == 'r' ? content(i) : -2;
    zv_ints("ct", c, NP); zv_bool("guard", guards == 2 * GUARD);
}
/* ---- streams ---- */
static int master[3] = {-1, -1, -1};
static void stream(int s, const char* kind)
{
    int fd = -1, slave;
    if (master[s] >= 0) { close(master[s]); master[s] = -1; }
    if (!strcmp(kind, "closed")) { close(s); return; }
    if (!strcmp(kind, "tty"))
    {
        if (openpty(&master[s], &slave, 0, 0, 0)) { fprintf(stderr, "drv: no terminal\n"); _exit(80); }
        int m = fcntl(master[s], F_DUPFD, 50); close(master[s]); master[s] = m; fd = slave;
        struct termios t; tcgetattr(fd, &t); t.c_oflag &= (tcflag_t)~OPOST; tcsetattr(fd, TCSANOW, &t);
    }
    else if (!strcmp(kind, "pipe")) { int p[2]; if (pipe(p)) _exit(80); fd = p[s ? 1 : 0]; close(p[s ? 0 : 1]); }
    else if (!strcmp(kind, "null")) fd = open("/dev/null", O_RDWR);
    else { FILE* f = tmpfile(); fd = dup(fileno(f)); fclose(f); }
    if (fd < 0) { fprintf(stderr, "drv: stream\n"); _exit(80); }
    if (fd != s) { dup2(fd, s); close(fd); }
}
static int tty_same(int s, struct termios* t, int have)
{
    struct termios n; if (!have) return 1;
    if (tcgetattr(s, &n)) return 0;
    return n.c_iflag == t->c_iflag && n.c_oflag == t->c_oflag && n.c_cflag == t->c_cflag && n.c_lflag == t->c_lflag && !memcmp(n.c_cc, t->c_cc, sizeof n.c_cc);
}
static long tty_out(void)
{
    long n = 0;
    for (int s = 0; s < 3; ++s) if (master[s] >= 0)
    {
        char b[256]; int fl = fcntl(master[s], F_GETFL); fcntl(master[s], F_SETFL, fl | O_NONBLOCK);
        ssize_t r; while ((r = read(master[s], b, sizeof b)) > 0) n += r;
        fcntl(master[s], F_SETFL, fl);
    }
    return n;
}
static const char* sgr[] = { ZYAN_VT100SGR_RESET,
    ZYAN_VT100SGR_FG_DEFAULT, ZYAN_VT100SGR_FG_BLACK, ZYAN_VT100SGR_FG_RED, ZYAN_VT100SGR_FG_GREEN, ZYAN_VT100SGR_FG_YELLOW, ZYAN_VT100SGR_FG_BLUE, ZYAN_VT100SGR_FG_MAGENTA, ZYAN_VT100SGR_FG_CYAN, ZYAN_VT100SGR_FG_WHITE,
    ZYAN_VT100SGR_FG_BRIGHT_BLACK, ZYAN_VT100SGR_FG_BRIGHT_RED, ZYAN_VT100SGR_FG_BRIGHT_GREEN, ZYAN_VT100SGR_FG_BRIGHT_YELLOW, ZYAN_VT100SGR_FG_BRIGHT_BLUE, ZYAN_VT100SGR_FG_BRIGHT_MAGENTA, ZYAN_VT100SGR_FG_BRIGHT_CYAN, ZYAN_VT100SGR_FG_BRIGHT_WHITE,
    ZYAN_VT100SGR_BG_DEFAULT, ZYAN_VT100SGR_BG_BLACK, ZYAN_VT100SGR_BG_RED, ZYAN_VT100SGR_BG_GREEN, ZYAN_VT100SGR_BG_YELLOW, ZYAN_VT100SGR_BG_BLUE, ZYAN_VT100SGR_BG_MAGENTA, ZYAN_VT100SGR_BG_CYAN, ZYAN_VT100SGR_BG_WHITE,
    ZYAN_VT100SGR_BG_BRIGHT_BLACK, ZYAN_VT100SGR_BG_BRIGHT_RED, ZYAN_VT100SGR_BG_BRIGHT_GREEN, ZYAN_VT100SGR_BG_BRIGHT_YELLOW, ZYAN_VT100SGR_BG_BRIGHT_BLUE, ZYAN_VT100SGR_BG_BRIGHT_MAGENTA, ZYAN_VT100SGR_BG_BRIGHT_CYAN, ZYAN_VT100SGR_BG_BRIGHT_WHITE };

static void script(int from, int to)
{
    int t0 = 0; zv_fd = fcntl(1, F_DUPFD, 100);
    setup(); stream(0, "null"); stream(1, "null"); stream(2, "null");
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        if (IS("Protect") || IS("Free") || IS("Flush") || IS("Map") || IS("Write") || IS("Probe"))
        {
            int p = (int)zv_argi("p", 1) - 1, u = (int)zv_argi("u", 0), n = (int)zv_argi("n", 1); long x = zv_argi("x", 0);
            if (p < 0 || p >= NP) p = 0;
            if (IS("Map") || IS("Write") || IS("Probe")) { n = 1; x = 0; u = 0; }
            if (n < 0) n = 0;
            if (x < 0 && !n) x = 0;
            while (p + n + (x > 0 || u) > NP) { if (n) --n; else { x = 0; u = 0; break; } }
            if (x < 0 && !n) x = 0;
            void* a = arena + p * ps + u; size_t size = (size_t)((long)n * (long)ps + x);
            zv_int("p", p + 1); zv_int("u", u); zv_int("n", n); zv_int("x", x);
            errno = 0;
            if (IS("Protect")) { const char* q = zv_get("prot"); if (!q) q = "R"; zv_str("prot", q); zv_st(ZyanMemoryVirtualProtect(a, size, prot(q))); }
            else if (IS("Free")) zv_st(ZyanMemoryVirtualFree(a, size));
            else if (IS("Flush")) zv_st(ZyanProcessFlushInstructionCache(a, size));
            else if (IS("Map"))
            {
                look(arena, NP, perm, 0);
                if (perm[p][0] == '-' && !perm[p][1]) { mmap(arena + p * ps, ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); fill(p, 1); zv_str("st", "SUCCESS"); }
                else zv_str("st", "SKIPPED");
            }
            else if (IS("Write"))
            {
                look(arena, NP, perm, 0); long g = zv_argi("g", 2); zv_int("g", g);
                if (perm[p][1] == 'w') { fill(p, (int)g); zv_str("st", "SUCCESS"); } else zv_str("st", "SKIPPED");
            }
            else { zv_str("st", "SUCCESS"); zv_bool("r", probe(p, 0)); zv_bool("w", probe(p, 1)); zv_bool("e", probe(p, 2)); }
            put_pages();
        }
        else if (IS("Huge"))
        {
            /* more than 2^32 bytes */
            size_t n = ((size_t)1 << 32) + 2 * ps; char q[3][4]; const char* w = zv_get("prot"); if (!w) w = "R";
            unsigned char* a = mmap(0, n + 2 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            zv_str("prot", w);
            if (a == MAP_FAILED) { zv_str("st", "SKIPPED"); }
            else
            {
                zv_st(ZyanMemoryVirtualProtect(a + ps, n, prot(w)));
                zv_put(",\"at\":["); size_t off[5] = {0, ps, (size_t)1 << 31, n, n + ps}; for (int i = 0; i < 5; ++i) { look(a + off[i], 1, q, 0); zv_put("%s\"%s\"", i ? "," : "", q[0]); } zv_put("]");
                /* mapped throughout; mapped up to the page beyond the last one; mapped from its second page on */
                zv_str("st6", zv_stname(ZyanProcessFlushInstructionCache(a + ps, n))); munmap(a + ps + n, ps); munmap(a, ps);
                zv_str("st7", zv_stname(ZyanProcessFlushInstructionCache(a + ps, n + ps))); zv_str("st8", zv_stname(ZyanProcessFlushInstructionCache(a, n)));
                a = mmap(a, ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); mmap(a + ps + n, ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
                zv_str("st2", zv_stname(ZyanMemoryVirtualFree(a + ps, n)));
                zv_put(",\"at2\":["); for (int i = 0; i < 5; ++i) { look(a + off[i], 1, q, 0); zv_put("%s\"%s\"", i ? "," : "", q[0]); } zv_put("]");
                /* sizes no address space holds */
                zv_str("st3", zv_stname(ZyanMemoryVirtualProtect(arena, SIZE_MAX, prot(w)))); zv_str("st4", zv_stname(ZyanMemoryVirtualFree(arena, SIZE_MAX))); zv_str("st5", zv_stname(ZyanMemoryVirtualFree(arena, SIZE_MAX / 2)));
                munmap(a, n + 2 * ps);
            }
            put_pages();
        }
        else if (IS("Sizes")) { zv_int("ps", (long)ps); zv_int("r", ZyanMemoryGetSystemPageSize()); zv_int("a", ZyanMemoryGetSystemAllocationGranularity()); zv_str("st", "SUCCESS"); put_pages(); }
        else
        {
            int s = (int)zv_argi("s", 0); if (IS("VT")) zv_int("s", s); else { if (s < 0 || s > 2) s = 0; zv_int("s", s); }
            if (IS("Stream")) { const char* k = zv_get("kind"); if (!k) k = "null"; stream(s, k); zv_str("kind", k); zv_str("st", "SUCCESS"); }
            else if (IS("IsTTY") || IS("VT"))
            {
                struct termios t; int have = s >= 0 && s <= 2 && !tcgetattr(s, &t);
                static const int stale[] = {0, EBADF, ENOTTY, EINVAL}; errno = stale[zv_argi("e", 0) & 3];
                zv_st(IS("VT") ? ZyanTerminalEnableVT100((ZyanStandardStream)s) : ZyanTerminalIsTTY((ZyanStandardStream)s));
                zv_bool("same", tty_same(s, &t, have)); zv_int("out", tty_out());
            }
            else if (IS("Sgr")) { int k = (int)zv_argi("k", 0); if (k < 0 || k >= (int)(sizeof sgr / sizeof *sgr)) k = 0; zv_int("k", k); zv_str("st", "SUCCESS"); zv_bytes("b", sgr[k], strlen(sgr[k])); }
            else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        }
        zv_end();
    }
    (void)t0;
    _exit(0);
}
int main(void) { return zv_scripts(script); }
