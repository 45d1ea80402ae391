/* Force-included into every /repo source file the drivers link: routes the C allocator through the
 * driver's ledger, so that the library's *default* allocator can be observed and made to fail. */
#ifndef ZV_SHIM_H
#define ZV_SHIM_H
#include <stdlib.h>
#include <stddef.h>
void* zv_malloc(size_t n);
void* zv_calloc(size_t n, size_t m);
void* zv_realloc(void* p, size_t n);
void  zv_free(void* p);
#define malloc  zv_malloc
#define calloc  zv_calloc
#define realloc zv_realloc
#define free    zv_free
#endif
