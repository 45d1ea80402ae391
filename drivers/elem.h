/* Elements of any size carrying one byte of value in a redundant encoding: a torn or stale element
 * decodes to -1. Little-endian unsigned comparison of two elements orders them by value. */
#ifndef ZV_ELEM_H
#define ZV_ELEM_H
OBJ size_t esz;
static void enc(long v, unsigned char* p)
{
    if (esz > 65536) { for (size_t k = 0; k < 64; ++k) p[k] = p[esz - 1 - k] = (unsigned char)(v + (long)k * 7); return; }
    for (size_t k = 0; k + 1 < esz; ++k) p[k] = (unsigned char)(v * 31 + (long)k * 7 + 3);
    p[esz - 1] = (unsigned char)v;
}
static long dec(const unsigned char* p)
{
    long v = p[esz - 1];
    if (esz > 65536) { for (size_t k = 0; k < 64; ++k) if (p[k] != (unsigned char)(v + (long)k * 7) || p[esz - 1 - k] != p[k]) return -1; return v; }
    for (size_t k = 0; k + 1 < esz; ++k) if (p[k] != (unsigned char)(v * 31 + (long)k * 7 + 3)) return -1;
    return v;
}
#define ZV_MAXDT ZV_SHOW
TL long dt[ZV_MAXDT]; TL size_t ndt;
static void dtor(void* p) { if (ndt < ZV_MAXDT) dt[ndt++] = dec((const unsigned char*)p); }
TL long ctor_val; TL int ctor_fail; TL int ctor_calls;
static ZyanStatus ctor(void* p)
{
    ++ctor_calls;
    enc(ctor_fail ? 250 : ctor_val, (unsigned char*)p);
    return ctor_fail ? ZYAN_MAKE_STATUS(1u, 0x3FFu, 0x77u) : ZYAN_STATUS_SUCCESS;
}
#endif
