#include "drv.h"
#include <Zycore/ArgParse.h>
#include <Zycore/Vector.h>

/* tokens in scripts: hexadecimal characters separated by ',', '.' is the empty token */
static size_t unhex(const char* s, size_t n, char* out)
{
    size_t k = 0;
    if (n == 1 && s[0] == '.') { out[0] = 0; return 0; }
    for (size_t i = 0; i + 1 < n; i += 2) { char t[3] = {s[i], s[i + 1], 0}; out[k++] = (char)strtol(t, 0, 16); }
    out[k] = 0;
    return k;
}
#define MAXT 600
OBJ const char* argv_[MAXT + 1]; OBJ size_t argc_;
OBJ ZyanArgParseDefinition defs[MAXT + 1]; OBJ size_t ndefs;
OBJ char* mem[2 * MAXT + 4]; OBJ int nmem;
static char* keep(const char* s, size_t n) { char* p = malloc(n / 2 + 2); size_t k = unhex(s, n, p); char* q = malloc(k + 1); memcpy(q, p, k + 1); free(p); mem[nmem++] = q; return q; }
static void clean(void) { while (nmem) free(mem[--nmem]); }

ZV_MAIN
{
    while (zv_read(stdin))
    {
        const char* op = zv_get("op");
        if (!op) continue;
        zv_begin(op);
        if (!strcmp(op, "Begin")) { zv_ledger_reset(); zv_int("id", zv_argi("id", 0)); zv_end(); continue; }
        zv_op_begin();
        ZyanStatus st; ZyanVector parsed; const char* tok; const char* const untouched = (const char*)&parsed;
        if (!strcmp(op, "Null"))
        {
            static const char* one[] = {"x"}; ZyanArgParseConfig c = {one, 1, 0, 0, 0};
            st = ZyanArgParseEx(&c, &parsed, 0, 0);
            zv_int("own", zv_num(zv_bytes_outstanding())); zv_put_custom(1);
        zv_st(st); zv_bool("asked", 0); zv_bool("told", 0); zv_put(",\"out\":[]"); zv_int("bad", zv_bad); zv_int("left", zv_nblk); zv_bool("oom", zv_oom); zv_bool("inj", 0);
            zv_end(); continue;
        }
        argc_ = ndefs = 0; memset(defs, 0, sizeof defs); memset(argv_, 0, sizeof argv_);
        char* s = zv_get("toks");
        while (s && *s && argc_ < MAXT) { size_t n = strcspn(s, ","); argv_[argc_++] = keep(s, n); s += n; if (*s == ',') ++s; }
        s = zv_get("defs");
        while (s && *s && ndefs < MAXT)
        {
            size_t n = strcspn(s, ":"); defs[ndefs].name = keep(s, n); s += n + 1;
            defs[ndefs].boolean = s[0] == 'b'; defs[ndefs].required = s[1] == 'r'; ++ndefs; s += 2; if (*s == ',') ++s;
        }
        long mn = zv_argi("min", 0), mx = zv_argi("max", 0), ask = zv_argi("tok", 1), nodefs = zv_argi("nodefs", 0) && !ndefs;
        zv_int("min", mn); zv_int("max", mx);
        zv_put(",\"defs\":[");
        for (size_t i = 0; i < ndefs; ++i)
        {
            zv_put("%s{\"b\":%s,\"r\":%s", i ? "," : "", defs[i].boolean ? "true" : "false", defs[i].required ? "true" : "false");
            zv_bytes("n", defs[i].name, strlen(defs[i].name)); zv_put("}");
        }
        zv_put("],\"toks\":[");
        for (size_t i = 0; i < argc_; ++i)
        {
            zv_put("%s[", i ? "," : "");
            for (size_t k = 0; argv_[i][k]; ++k) zv_put("%s%u", k ? "," : "", (unsigned char)argv_[i][k]);
            zv_put("]");
        }
        zv_put("]");
        ZyanArgParseConfig cfg = {argv_, argc_, (ZyanUSize)mn, (ZyanUSize)mx, nodefs ? 0 : defs};
        memset(&parsed, 0xCC, sizeof parsed); tok = untouched;
        ZyanArgParseConfig before = cfg;
#ifndef ZYAN_NO_LIBC
        if (!strcmp(op, "Parse")) st = ZyanArgParse(&cfg, &parsed, ask ? &tok : 0); else
#endif
        st = ZyanArgParseEx(&cfg, &parsed, ask ? &tok : 0, zv_alloc_custom());
        zv_int("own", zv_num(zv_bytes_outstanding())); zv_put_custom(1);
        zv_st(st); zv_bool("asked", ask != 0); zv_bool("told", tok && tok != untouched);
        if (tok && tok != untouched) zv_bytes("tok", tok, strlen(tok));
        zv_put(",\"out\":[");
        if (ZYAN_SUCCESS(st))
        {
            ZyanUSize n = 0; ZyanVectorGetSize(&parsed, &n);
            for (ZyanUSize i = 0; i < n && i < 4000; ++i)
            {
                const ZyanArgParseArg* a = ZyanVectorGet(&parsed, i); long d = 0, t = 0, o = 0; ZyanUSize len = 0; const char* data = "";
                if (!a) { zv_put("%s{\"d\":-1}", i ? "," : ""); continue; }
                if (a->def) { d = -2; for (size_t k = 0; k < ndefs; ++k) if (a->def == &defs[k]) d = (long)k + 1; }
                if (a->has_value)
                {
                    if (ZyanStringViewGetSize(&a->value, &len) != ZYAN_STATUS_SUCCESS || ZyanStringViewGetData(&a->value, &data) != ZYAN_STATUS_SUCCESS) { len = 0; data = ""; t = -3; }
                    else
                    {
                        t = -2;   /* not inside of any token */
                        for (size_t k = 0; k < argc_; ++k)
                            if ((uintptr_t)data >= (uintptr_t)argv_[k] && (uintptr_t)data + len <= (uintptr_t)argv_[k] + strlen(argv_[k])) { t = (long)k; o = data - argv_[k]; }
                        if (t < 0) { len = 0; }
                    }
                }
                zv_put("%s{\"d\":%ld,\"hv\":%s,\"t\":%ld,\"o\":%ld", i ? "," : "", d, a->has_value ? "true" : "false", t, o);
                zv_bytes("v", data, len); zv_put("}");
            }
            zv_put("]");
            if (ZyanVectorDestroy(&parsed) != ZYAN_STATUS_SUCCESS) ++zv_bad;
        }
        else zv_put("]");
        if (memcmp(&before, &cfg, sizeof cfg)) ++zv_bad;
        zv_int("bad", zv_bad); zv_int("left", zv_nblk); zv_bool("oom", zv_oom); zv_bool("inj", zv_fail_from != 0);
        zv_end(); zv_ledger_reset(); clean();
    }
    return 0;
}
#include "threads.h"
