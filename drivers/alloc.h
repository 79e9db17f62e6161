/* Allocation accounting and fault injection for code linked with --wrap. */
#ifndef VERIF_ALLOC_H_
#define VERIF_ALLOC_H_
#include <stddef.h>
void  va_begin(int fail_at);      /* start tracking; fail_at: 1-based index of the failing allocation, 0 = none */
void  va_begin_from(int fail_at); /* as above, every allocation from fail_at on fails */
int   va_done(void);               /* stop tracking; returns number of allocation attempts */
int   va_failed(void);            /* how many injected failures happened since va_begin */
long  va_live(void);              /* blocks allocated while tracking and not yet released */
long  va_bad(void);               /* releases of pointers that are not live tracked blocks while tracking */
void  va_reset(void);             /* forget everything tracked */
int   va_is_live(void *p);
size_t va_size(void *p);          /* size of a live tracked block */
void  va_each(void (*fn)(void *p, size_t sz, void *c), void *c); /* every live tracked block */
void *va_adjacent(size_t n);       /* a zeroed tracked block right behind the previous one */
void *va_far(size_t n);
void *raw_calloc(size_t n, size_t s);
void *raw_malloc(size_t s);
void  raw_free(void *p);
#endif
