/* Fundamental types, limits, constants, bit fields. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <sched.h>
#ifndef ZV_CXX
#define ZV_TYPES_IMPL
#endif
#include "types_ops.h"
#include "mt.h"
static u64 word(const char* k) { long l[8] = {0}; u64 v = 0; zv_list(k, l, 8); for (int i = 0; i < 8; ++i) v |= (u64)(l[i] & 255) << 8 * i; return v; }
static void put(const char* k, u64 v) { unsigned char b[8]; for (int i = 0; i < 8; ++i) b[i] = (unsigned char)(v >> 8 * i); zv_bytes(k, b, 8); }
static void script(int from, int to)
{
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        const char* n = zv_get("n") ? zv_get("n") : ""; u64 a = word("a"), x = 0, y = 0; int w = 0, sg = 0, ok = 1, k = (int)zv_argi("k", 0);
        zv_str("n", n); zv_int("ptr", (long)sizeof(void*)); put("a", a); zv_int("k", k);
        if (IS("Type")) { ok = types_type(n, &w, &sg); zv_int("w", w); zv_bool("sg", sg); }
        else if (IS("Limit")) { ok = types_limit(n, &x, &y); put("hi", x); put("lo", y); }
        else if (IS("Const")) { ok = types_const(n, &x); put("x", x); }
        else if (IS("Store")) put("x", types_store(n, a));
        else if (IS("Pointer")) put("x", types_pointer(a));
        else if (IS("Bits")) { x = types_bits(k, a, &ok); put("x", x); zv_bool("rest", ok); ok = 1; }
        else if (IS("Magnitude")) put("x", types_magnitude(a));
        else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        if (!ok) { zv_len = 0; zv_begin("Crash"); zv_str("why", "contradictory limits or an unknown name"); }
        zv_end();
    }
    _exit(0);
}
int main(void) { return zv_scripts(script); }
