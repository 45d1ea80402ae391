/* The helper macros and functions, applied to operands of every width. Compiled as C and as C++. */
#ifndef ZV_HELPERS_OPS_H
#define ZV_HELPERS_OPS_H
#include <Zycore/Types.h>
#include <Zycore/Status.h>
#include <Zycore/Comparison.h>
#include <Zycore/Zycore.h>
typedef struct { unsigned long long x; int cmp, eq, t, n, times, went; } helper_res;
#ifdef __cplusplus
extern "C" {
#endif
void helper_perform(const char* op, int w, int sg, const char* form, unsigned long long a, unsigned long long b, int k, helper_res* r);
void helper_make(unsigned e, unsigned m, unsigned c, unsigned* s, unsigned* ok, unsigned* bad, unsigned* om, unsigned* oc);
void helper_split(unsigned s, unsigned* ok, unsigned* bad, unsigned* om, unsigned* oc);
int helper_code(int i, const char** name, unsigned* s);
void helper_modules(unsigned* a, unsigned* b, unsigned* c);
void helper_version(unsigned long long v, unsigned* out);
unsigned long long helper_release(void);
int helper_array(int i);
#ifdef __cplusplus
}
#endif
#ifdef ZV_HELPERS_IMPL
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#define ALL(X) X(1, 0, ZyanU8) X(2, 0, ZyanU16) X(4, 0, ZyanU32) X(8, 0, ZyanU64) X(1, 1, ZyanI8) X(2, 1, ZyanI16) X(4, 1, ZyanI32) X(8, 1, ZyanI64)
#define WIDE(X) X(4, 0, ZyanU32) X(8, 0, ZyanU64) X(4, 1, ZyanI32) X(8, 1, ZyanI64)
#define UNS(X) X(1, 0, ZyanU8) X(2, 0, ZyanU16) X(4, 0, ZyanU32) X(8, 0, ZyanU64)
#define SGN(X) X(1, 1, ZyanI8) X(2, 1, ZyanI16) X(4, 1, ZyanI32) X(8, 1, ZyanI64)
#define DECL(W, S, T) \
    typedef struct { ZyanU8 x; T key; ZyanU8 y; } rec_##T; \
    static ZYAN_DECLARE_EQUALITY_COMPARISON(eq_##T, T) \
    static ZYAN_DECLARE_COMPARISON(cmp_##T, T) \
    static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(eqf_##T, rec_##T, key) \
    static ZYAN_DECLARE_COMPARISON_FOR_FIELD(cmpf_##T, rec_##T, key)
ALL(DECL)
static void std_(int w, unsigned long long a, unsigned long long b, helper_res* r)
{
    ZyanU8 a1 = (ZyanU8)a, b1 = (ZyanU8)b; ZyanU16 a2 = (ZyanU16)a, b2 = (ZyanU16)b; ZyanU32 a4 = (ZyanU32)a, b4 = (ZyanU32)b; ZyanU64 a8 = a, b8 = b;
    switch (w)
    {
    case 1: r->cmp = ((ZyanComparison)ZyanCompareNumeric8)(&a1, &b1); r->eq = ((ZyanEqualityComparison)ZyanEqualsNumeric8)(&a1, &b1); break;
    case 2: r->cmp = ((ZyanComparison)ZyanCompareNumeric16)(&a2, &b2); r->eq = ((ZyanEqualityComparison)ZyanEqualsNumeric16)(&a2, &b2); break;
    case 4: r->cmp = ((ZyanComparison)ZyanCompareNumeric32)(&a4, &b4); r->eq = ((ZyanEqualityComparison)ZyanEqualsNumeric32)(&a4, &b4); break;
    case 8: r->cmp = ((ZyanComparison)ZyanCompareNumeric64)(&a8, &b8); r->eq = ((ZyanEqualityComparison)ZyanEqualsNumeric64)(&a8, &b8); break;
    }
}
static unsigned next_(unsigned* times, unsigned s) { ++*times; return s; }
static ZyanStatus check_(unsigned s, unsigned* times, int* went)
{
    ZYAN_CHECK(next_(times, s));
    *went = 1;
    if (s) ZYAN_CHECK(s); else ZYAN_CHECK(ZYAN_STATUS_SUCCESS);
    return ZYAN_STATUS_BAD_SYSTEMCALL;
}
#define IS(name) (!strcmp(op, name))
void helper_perform(const char* op, int w, int sg, const char* form, unsigned long long a, unsigned long long b, int k, helper_res* r)
{
    if (IS("Compare"))
    {
        if (!strcmp(form, "std")) std_(w, a, b, r);
        else if (!strcmp(form, "ptr"))
        {
            void* x = (void*)(ZyanUPointer)a; void* y = (void*)(ZyanUPointer)b;
            r->cmp = ((ZyanComparison)ZyanComparePointer)(&x, &y); r->eq = ((ZyanEqualityComparison)ZyanEqualsPointer)(&x, &y);
        }
        else if (!strcmp(form, "bool")) { ZyanBool x = (ZyanBool)a, y = (ZyanBool)b; r->cmp = ((ZyanComparison)ZyanCompareBool)(&x, &y); r->eq = ((ZyanEqualityComparison)ZyanEqualsBool)(&x, &y); }
#define CMP(W, S, T) else if (w == W && sg == S && !strcmp(form, "own")) { T x = (T)a, y = (T)b; r->cmp = cmp_##T(&x, &y); r->eq = eq_##T(&x, &y); } \
        else if (w == W && sg == S) { rec_##T x = {1, (T)a, 9}, y = {2, (T)b, 3}; r->cmp = cmpf_##T(&x, &y); r->eq = eqf_##T(&x, &y); }
        ALL(CMP)
        r->cmp = r->cmp < 0 ? -1 : r->cmp > 0;
    }
#define MM(W, S, T) else if (w == W && sg == S && IS("Min")) { T x = (T)a, y = (T)b; r->x = (unsigned long long)ZYAN_MIN(x, y); } \
    else if (w == W && sg == S && IS("Max")) { T x = (T)a, y = (T)b; r->x = (unsigned long long)ZYAN_MAX(x, y); }
    WIDE(MM)
#define AB(W, S, T) else if (w == W && IS("Abs")) { T x = (T)a; r->x = (unsigned long long)ZYAN_ABS(x); }
    SGN(AB)
#define P2(W, S, T) else if (w == W && IS("Pow2")) { T x = (T)a; r->t = ZYAN_IS_POWER_OF_2(x) ? 1 : 0; }
    UNS(P2)
#define AL(T) { T x = (T)a, al = (T)((T)1 << k); \
        if (IS("Aligned")) r->t = ZYAN_IS_ALIGNED_TO(x, al) ? 1 : 0; \
        else if (IS("Down")) r->x = ZYAN_ALIGN_DOWN(x, al); \
        else r->x = ZYAN_ALIGN_UP(x, al); }
    else if (IS("Aligned") || IS("Down") || IS("Up")) { if (w == 4) AL(ZyanU32) else AL(ZyanU64) }
    else if (IS("Div")) { ZyanU64 n = a; ZyanU32 d = (ZyanU32)b; ZYAN_DIV64(n, d); r->x = n; }
    else if (IS("NeedsBit")) { ZyanU32 n = (ZyanU32)a; r->t = ZYAN_NEEDS_BIT(n, k); }
    else if (IS("BitsTo")) { ZyanU32 n = (ZyanU32)a; r->n = ZYAN_BITS_TO_REPRESENT(n); }
    else if (IS("Check")) { unsigned t = 0; r->went = 0; r->x = check_((unsigned)a, &t, &r->went); r->times = (int)t; }
}
void helper_make(unsigned e, unsigned m, unsigned c, unsigned* s, unsigned* ok, unsigned* bad, unsigned* om, unsigned* oc)
{
    ZyanStatus x = ZYAN_MAKE_STATUS(e, m, c); *s = x;
    helper_split(x, ok, bad, om, oc);
}
void helper_split(unsigned s, unsigned* ok, unsigned* bad, unsigned* om, unsigned* oc)
{
    *ok = ZYAN_SUCCESS(s) ? 1 : 0; *bad = ZYAN_FAILED(s) ? 1 : 0; *om = ZYAN_STATUS_MODULE(s); *oc = ZYAN_STATUS_CODE(s);
}
int helper_code(int i, const char** name, unsigned* s)
{
#define C(x) { #x, ZYAN_STATUS_##x }
    static const struct { const char* n; unsigned s; } all[] = {
        C(SUCCESS), C(FAILED), C(TRUE), C(FALSE), C(INVALID_ARGUMENT), C(INVALID_OPERATION), C(ACCESS_DENIED), C(NOT_FOUND), C(OUT_OF_RANGE),
        C(INSUFFICIENT_BUFFER_SIZE), C(NOT_ENOUGH_MEMORY), C(BAD_SYSTEMCALL), C(OUT_OF_RESOURCES), C(MISSING_DEPENDENCY),
        C(ARG_NOT_UNDERSTOOD), C(TOO_FEW_ARGS), C(TOO_MANY_ARGS), C(ARG_MISSES_VALUE), C(REQUIRED_ARG_MISSING) };
    if (i >= (int)ZYAN_ARRAY_LENGTH(all)) return 0;
    *name = all[i].n; *s = all[i].s; return 1;
}
void helper_modules(unsigned* a, unsigned* b, unsigned* c) { *a = ZYAN_MODULE_ZYCORE; *b = ZYAN_MODULE_ARGPARSE; *c = ZYAN_MODULE_USER; }
void helper_version(unsigned long long v, unsigned* o)
{
    ZyanU64 x = v;
    o[0] = ZYCORE_VERSION_MAJOR(x); o[1] = ZYCORE_VERSION_MINOR(x); o[2] = ZYCORE_VERSION_PATCH(x); o[3] = ZYCORE_VERSION_BUILD(x);
}
unsigned long long helper_release(void) { return ZYCORE_VERSION; }
int helper_array(int i)
{
    ZyanU8 a[1], c[3]; ZyanU64 b[1]; rec_ZyanU16 d[7]; ZyanI16 e[13]; void* f[64]; ZyanU32 g[5][9];
    switch (i)
    {
    case 0: return (int)ZYAN_ARRAY_LENGTH(a); case 1: return (int)ZYAN_ARRAY_LENGTH(b); case 2: return (int)ZYAN_ARRAY_LENGTH(c); case 3: return (int)ZYAN_ARRAY_LENGTH(d);
    case 4: return (int)ZYAN_ARRAY_LENGTH(e); case 5: return (int)ZYAN_ARRAY_LENGTH(f); case 6: return (int)ZYAN_ARRAY_LENGTH(g);
    }
    return -1;
}
#undef IS
#ifdef __cplusplus
}
#endif
#endif
#endif
