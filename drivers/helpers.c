/* Status codes, comparison functions, arithmetic macros and the version number. */
#include "mt.h"
#ifndef ZV_CXX
#define ZV_HELPERS_IMPL
#endif
#include "helpers_ops.h"
static unsigned long long word(const char* k, int n)
{
    long l[8] = {0}; unsigned long long v = 0; zv_list(k, l, 8);
    for (int i = 0; i < n; ++i) v |= (unsigned long long)(l[i] & 255) << 8 * i;
    return v;
}
static void put(const char* k, unsigned long long v, int n) { unsigned char b[8]; for (int i = 0; i < n; ++i) b[i] = (unsigned char)(v >> 8 * i); zv_bytes(k, b, (size_t)n); }
static void script(int from, int to)
{
    for (int l = from; l < to; ++l)
    {
        zv_tokenize(zv_lines[l]);
        const char* op = zv_get("op"); if (!op) continue;
        zv_begin(op);
#define IS(name) (!strcmp(op, name))
        if (IS("Begin")) { zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        alarm(60);
        unsigned s, ok, bad, m, c; helper_res r = {0};
        if (IS("Make"))
        {
            unsigned e = (unsigned)word("e", 4); m = (unsigned)word("m", 4); c = (unsigned)word("c", 4); put("e", e, 4); put("m", m, 4); put("c", c, 4);
            helper_make(e, m, c, &s, &ok, &bad, &m, &c); put("rs", s, 4); zv_bool("ok", (int)ok); zv_bool("bad", (int)bad); put("rm", m, 4); put("rc", c, 4);
        }
        else if (IS("Split")) { s = (unsigned)word("s", 4); put("s", s, 4); helper_split(s, &ok, &bad, &m, &c); zv_bool("ok", (int)ok); zv_bool("bad", (int)bad); put("rm", m, 4); put("rc", c, 4); }
        else if (IS("Check")) { s = (unsigned)word("s", 4); put("s", s, 4); helper_perform(op, 0, 0, "", s, 0, 0, &r); put("rs", r.x, 4); zv_int("times", r.times); zv_int("went", r.went); }
        else if (IS("Codes"))
        {
            const char* n; zv_put(",\"codes\":[");
            for (int i = 0; helper_code(i, &n, &s); ++i) { zv_put("%s{\"n\":\"%s\"", i ? "," : "", n); put("s", s, 4); zv_put("}"); }
            zv_put("]"); helper_modules(&s, &m, &c); put("zycore", s, 4); put("argparse", m, 4); put("user", c, 4);
        }
        else if (IS("Release")) { put("lib", ZycoreGetVersion(), 8); put("hdr", helper_release(), 8); }
        else if (IS("Arrays")) { long x[7]; for (int i = 0; i < 7; ++i) x[i] = helper_array(i); zv_ints("x", x, 7); }
        else if (IS("Version"))
        {
            unsigned long long v = word("a", 8); unsigned o[4]; put("a", v, 8); helper_version(v, o);
            zv_put(",\"x\":["); for (int i = 0; i < 4; ++i) zv_put("%s[%u,%u]", i ? "," : "", o[i] & 255, o[i] >> 8); zv_put("]");
        }
        else
        {
            int w = (int)zv_argi("w", IS("Div") ? 8 : 4), sg = !strcmp(zv_get("sg") ? zv_get("sg") : "false", "true"); const char* form = zv_get("form") ? zv_get("form") : "own";
            unsigned long long a = word("a", w), b = IS("Div") ? (unsigned long long)zv_argi("d", 1) : word("b", w); int k = (int)zv_argi(IS("NeedsBit") ? "k" : "al", 0);
            if (sg && w < 8) { unsigned long long h = 1ull << (8 * w - 1); a = (a ^ h) - h; b = (b ^ h) - h; }
            if (IS("Abs") && w < 8) { unsigned long long h = 1ull << (8 * w - 1); a = (a ^ h) - h; }
            zv_int("w", w); put("a", a, w); zv_str("form", form); zv_bool("sg", sg);
            if (IS("Div")) zv_int("d", (long)b); else put("b", b, w);
            zv_int(IS("NeedsBit") ? "k" : "al", k);
            helper_perform(op, w, sg, form, a, b, k, &r);
            if (IS("Compare")) { zv_int("cmp", r.cmp); if (r.eq == 0 || r.eq == 1) zv_bool("eq", r.eq); else zv_int("eq", r.eq); }
            else if (IS("Pow2") || IS("Aligned") || IS("NeedsBit")) { if (r.t == 0 || r.t == 1) zv_bool("t", r.t); else zv_int("t", r.t); }
            else if (IS("BitsTo")) zv_int("n", r.n);
            else if (IS("Min") || IS("Max") || IS("Abs") || IS("Up") || IS("Down") || IS("Div")) put("x", r.x, w);
            else { fprintf(stderr, "unknown op %s\n", op); _exit(76); }
        }
        zv_end();
    }
    _exit(0);
}
int main(void) { return zv_scripts(script); }
