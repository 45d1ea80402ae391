/* What the preprocessor and the compilers make of the library's headers and sources in other environments.
 * Nothing is executed; compilers are run and what they answer is recorded. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <sys/prctl.h>
#include <time.h>
#include <sched.h>
#include "mt.h"
static const char* NAMES[] = { "CLANG", "GNUC", "ICC", "GCC", "MSVC", "BORLAND", "UNKNOWN_COMPILER", "WINDOWS", "EMSCRIPTEN", "WASI", "APPLE", "POSIX", "LINUX", "FREEBSD", "NETBSD", "SOLARIS", "HAIKU", "UNIX",
    "UNKNOWN_PLATFORM", "KERNEL", "USER", "X64", "X86", "AARCH64", "ARM", "WASM", "LOONGARCH", "PPC64", "PPC", "RISCV64", "DEBUG", "RELEASE", 0 };
static const char* TYPES[] = { "U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "USize", "ISize", "UPointer", "IPointer", "Bool", "Ternary", "Status", 0 };
static char* av[200]; static int ac; static char store[32768]; static size_t used;
static void arg(const char* a, const char* b)
{
    size_t n = strlen(a) + strlen(b) + 1;
    if (used + n > sizeof store || ac > 190) _exit(81);
    sprintf(store + used, "%s%s", a, b); av[ac++] = store + used; used += n; av[ac] = 0;
}
static void cmd(const char* prog) { ac = 0; used = 0; arg(prog, ""); arg("-w", ""); }
static char answer[1 << 20];
/* runs av with `text` (or nothing) as input; the exit status */
static int run(const char* text)
{
    int in[2], out[2];
    if (pipe(in) || pipe(out)) _exit(82);
    pid_t p = fork();
    if (p < 0) _exit(82);
    if (!p)
    {
        dup2(in[0], 0); dup2(out[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2);
        close(in[0]); close(in[1]); close(out[0]); close(out[1]);
        execvp(av[0], av); _exit(127);
    }
    close(in[0]); close(out[1]);
    if (text && write(in[1], text, strlen(text)) < 0) {}
    close(in[1]);
    size_t got = 0; ssize_t r;
    while (got + 1 < sizeof answer && (r = read(out[0], answer + got, sizeof answer - 1 - got)) > 0) got += (size_t)r;
    answer[got] = 0; close(out[0]);
    int st; while (waitpid(p, &st, 0) < 0) ;
    if (!WIFEXITED(st) || WEXITSTATUS(st) == 127) { fprintf(stderr, "cannot run %s\n", av[0]); _exit(83); }
    return WEXITSTATUS(st);
}
static char repo[2000], stubs[2000], res[2000];
static void dirs(const char* kind)
{
    char b[5000];
    snprintf(b, sizeof b, "-I%s/include", repo); arg(b, ""); snprintf(b, sizeof b, "-I%s/src", repo); arg(b, "");
    if (kind) { snprintf(b, sizeof b, "-isystem%s/%s", stubs, kind); arg(b, ""); }
}
static void own(void)      /* the headers every free-standing compiler brings */
{
    if (!res[0]) { cmd("clang"); arg("-print-resource-dir", ""); run(0); answer[strcspn(answer, "\n")] = 0; snprintf(res, sizeof res, "-isystem%.1900s/include", answer); }
}
static void triple(const char* t) { char b[200]; snprintf(b, sizeof b, "--target=%s", t); for (char* p = b + 9; *p; ++p) if (*p == '_') *p = '-';
    /* the names of processors with an underscore of their own */
    static const char* fix[] = { "x86-64", "x86_64", "aarch64-be", "aarch64_be", "arm64-32", "arm64_32", 0 };
    for (int i = 0; fix[i]; i += 2) if (!strncmp(b + 9, fix[i], strlen(fix[i]))) memcpy(b + 9, fix[i + 1], strlen(fix[i + 1]));
    arg(b, ""); }
static const char* probe(void)
{
    static char b[8192]; int n = sprintf(b, "#include <Zycore/Defines.h>\n");
    for (int i = 0; NAMES[i]; ++i) n += sprintf(b + n, "#ifdef ZYAN_%s\nzv_has:\"%s\";\n#endif\n", NAMES[i], NAMES[i]);
    sprintf(b + n, "zv_export:<ZYCORE_EXPORT>\n"); return b;
}
static void names(void)
{
    zv_put(",\"m\":["); int k = 0;
    for (int i = 0; NAMES[i]; ++i) { char b[64]; snprintf(b, sizeof b, "zv_has:\"%s\";", NAMES[i]); if (strstr(answer, b)) zv_put("%s\"%s\"", k++ ? "," : "", NAMES[i]); }
    zv_put("]");
}
static char bad[4000]; static int nbad;
static void fails(const char* n) { if (strlen(bad) + strlen(n) + 8 < sizeof bad) sprintf(bad + strlen(bad), "%s\"%s\"", nbad ? "," : "", n); ++nbad; }
static int by_name(const void* a, const void* b) { return strcmp(*(char* const*)a, *(char* const*)b); }
static int files(const char* dir, const char* ext, char* out[], int max)
{
    int n = 0; char b[4200]; snprintf(b, sizeof b, "%s/%s", repo, dir);
    DIR* d = opendir(b); if (!d) return 0;
    for (struct dirent* e; (e = readdir(d)) && n < max;) { size_t l = strlen(e->d_name); if (l > 2 && !strcmp(e->d_name + l - 2, ext)) out[n++] = strdup(e->d_name); }
    closedir(d); qsort(out, (size_t)n, sizeof *out, by_name); return n;
}
static void lang(const char* std) { arg("-x", ""); arg(strchr(std, '+') ? "c++" : "c", ""); arg("-std=", std); }
static void script(int from, int to)
{
    const char* r = getenv("ZV_REPO"); snprintf(repo, sizeof repo, "%s", r ? r : "/repo"); snprintf(stubs, sizeof stubs, "%.*s/stubs", (int)(strrchr(__FILE__, (int)47) - __FILE__), __FILE__);
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
#define STR(k) const char* k = zv_get(#k) ? zv_get(#k) : ""; if (*k) zv_str(#k, k)
#define FLAG(k) int k = zv_get(#k) && !strcmp(zv_get(#k), "true"); zv_bool(#k, k)
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(100);
        STR(cc); STR(os); STR(arch); STR(kernel); STR(dbg); STR(link); STR(t); STR(std); FLAG(lib); FLAG(cxx); FLAG(holds);
        char* f[200]; int n;
        if (IS("World"))
        {
            cmd("gcc"); arg("-E", ""); arg("-P", ""); arg("-undef", ""); arg("-nostdinc", ""); dirs("all");
            char b[2000]; snprintf(b, sizeof b, "%s", zv_get("defs") ? zv_get("defs") : "");
            for (char* p = strtok(b, ","); p; p = strtok(0, ",")) arg("-D", p);
            arg("-", ""); int ok = !run(probe()); zv_bool("ok", ok);
            if (ok) { names(); const char* x = strstr(answer, "zv_export:<"); zv_str("ex", !x ? "?" : strstr(x, "dllexport") ? "export" : strstr(x, "dllimport") ? "import" : "none"); }
        }
        else if (IS("Target"))
        {
            cmd("clang"); triple(t); arg("-std=", std); arg("-E", ""); arg("-P", ""); arg("-nostdinc", ""); arg("-DZYCORE_STATIC_BUILD", ""); dirs("all");
            if (!strcmp(dbg, "ndebug")) arg("-DNDEBUG", "");
            arg("-", ""); int ok = !run(probe()); zv_bool("ok", ok);
            if (ok) names();
        }
        else if (IS("Widths"))
        {
            own();
            static char b[16384]; int k = sprintf(b, "#include <Zycore/Types.h>\n#include <Zycore/Status.h>\n%s", cxx ? "#define C extern const\nextern \"C\" {\n" : "#define C const\n");
            for (int i = 0; TYPES[i]; ++i) k += sprintf(b + k, "C long long w_%s; C long long w_%s = sizeof(Zyan%s); C long long s_%s; C long long s_%s = ((Zyan%s)-1 < (Zyan%s)1);\n", TYPES[i], TYPES[i], TYPES[i], TYPES[i], TYPES[i], TYPES[i], TYPES[i]);
            static const char* LIM[] = { "UINT8", "UINT16", "UINT32", "UINT64", "INT8", "INT16", "INT32", "INT64" };
            for (int i = 0; i < 8; ++i) k += sprintf(b + k, "C long long hi_%s; C long long hi_%s = ZYAN_%s_MAX; C long long lo_%s; C long long lo_%s = %s%s%s;\n", LIM[i], LIM[i], LIM[i], LIM[i], LIM[i], i < 4 ? "0" : "ZYAN_", i < 4 ? "" : LIM[i], i < 4 ? "" : "_MIN");
            if (cxx) sprintf(b + k, "}\n");
            cmd("clang"); triple(t); lang(cxx ? "c++11" : "c11"); arg("-O0", ""); arg("-S", ""); arg("-emit-llvm", ""); arg("-ffreestanding", ""); arg("-nostdinc", "");
            if (cxx) arg("-Wno-narrowing", "");
            dirs("hosted"); arg(res, ""); if (!lib) arg("-DZYAN_NO_LIBC", ""); arg("-DZYCORE_STATIC_BUILD", ""); arg("-o-", ""); arg("-", "");
            int ok = !run(b); zv_bool("ok", ok);
            if (ok)
            {
#define VALUE(pre, nm, into) do { char q_[64]; snprintf(q_, sizeof q_, "@%s_%s = ", pre, nm); char* x_ = strstr(answer, q_); x_ = x_ ? strstr(x_, " i64 ") : 0; into = x_ ? strtoll(x_ + 5, 0, 10) : -12345; } while (0)
                zv_put(",\"ty\":{");
                for (int i = 0; TYPES[i]; ++i) { long long w, s; VALUE("w", TYPES[i], w); VALUE("s", TYPES[i], s); zv_put("%s\"%s\":[%lld,%s]", i ? "," : "", TYPES[i], w, s ? "true" : "false"); }
                zv_put("},\"lim\":{");
                for (int i = 0; i < 8; ++i) { long long h, o; VALUE("hi", LIM[i], h); VALUE("lo", LIM[i], o); zv_put(i == 3 ? "%s\"%s%s\":[\"%llu\",\"%lld\"]" : "%s\"%s%s\":[\"%lld\",\"%lld\"]", i ? "," : "", i < 4 ? "U" : "I", strpbrk(LIM[i], "1368"), h, o); }
                zv_put("}");
            }
        }
        else if (IS("Sources") || IS("Headers"))
        {
            own(); bad[0] = 0; nbad = 0; int ok = 1;
            if (IS("Sources"))
            {
                cmd("clang"); triple(t); arg("-E", ""); arg("-nostdinc", ""); arg("-DZYAN_NO_LIBC", ""); arg("-DZYCORE_STATIC_BUILD", ""); dirs(0); arg("-", ""); ok = !run("#include <Zycore/Defines.h>\n");
                for (int part = 0; ok && part < 2; ++part)
                {
                    n = files(part ? "src/API" : "src", ".c", f, 200);
                    for (int i = 0; i < n; ++i)
                    {
                        char b[5000]; snprintf(b, sizeof b, "%s/src/%s%s", repo, part ? "API/" : "", f[i]);
                        cmd("clang"); triple(t); arg("-std=c11", ""); arg("-fsyntax-only", ""); arg("-nostdinc", ""); arg("-ffreestanding", ""); dirs(0); arg(res, ""); arg("-DZYAN_NO_LIBC", ""); arg("-DZYCORE_STATIC_BUILD", ""); arg(b, "");
                        if (run(0)) fails(f[i]);
                    }
                }
            }
            else
            {
                static char all[20000]; all[0] = 0;
                for (int part = 0; part < 2; ++part)
                {
                    n = files(part ? "include/Zycore/API" : "include/Zycore", ".h", f, 200);
                    for (int i = 0; i < n; ++i)
                    {
                        char b[600]; snprintf(b, sizeof b, "#include <Zycore/%s%.500s>\n", part ? "API/" : "", f[i]);
                        strcat(all, b);
                        cmd(cc); lang(std); arg("-fsyntax-only", ""); dirs(0); arg("-DZYCORE_STATIC_BUILD", ""); if (!lib) arg("-DZYAN_NO_LIBC", ""); arg("-", "");
                        if (run(b)) fails(f[i]);
                    }
                }
                strcpy(all + strlen(all), ""); size_t m = strlen(all); memcpy(all + m, all, m); all[2 * m] = 0;
                cmd(cc); lang(std); arg("-fsyntax-only", ""); dirs(0); arg("-DZYCORE_STATIC_BUILD", ""); if (!lib) arg("-DZYAN_NO_LIBC", ""); arg("-", "");
                if (run(all)) fails("all");
            }
            zv_bool("ok", ok); if (ok) zv_put(",\"bad\":[%s]", bad);
        }
        else if (IS("Static"))
        {
            char b[600]; snprintf(b, sizeof b, "#include <Zycore/Defines.h>\nZYAN_STATIC_ASSERT(sizeof(char) == %d);\nvoid f(void); void f(void) { ZYAN_STATIC_ASSERT(1); }\n", holds ? 1 : 2);
            cmd(cc); lang(std); arg("-fsyntax-only", ""); dirs(0); arg("-DZYCORE_STATIC_BUILD", ""); arg("-", "");
            zv_bool("ok", !run(b));
        }
        else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        zv_end();
    }
    _exit(0);
}
int main(void) { signal(SIGPIPE, SIG_IGN); return zv_scripts(script); }
