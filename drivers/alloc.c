#include "alloc.h"
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
/* open-addressing table of tracked blocks */
static struct { void *p; size_t sz; } *tab; static size_t cap, used; static long live, bad;
static int on, n, fail, from, failed;
#define TOMB ((void*)1)
static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20; }
static void put(void *p, size_t sz);
static void grow(void) {
    size_t oc = cap; __typeof__(tab) ot = tab;
    cap = cap ? cap * 2 : 4096; tab = __real_calloc(cap, sizeof *tab); used = 0; long l = live;
    for (size_t i = 0; i < oc; i++) if (ot[i].p && ot[i].p != TOMB) put(ot[i].p, ot[i].sz);
    live = l; __real_free(ot);
}
static void put(void *p, size_t sz) {
    if ((used + 1) * 2 > cap) grow();
    size_t i = slot(p) % cap; while (tab[i].p && tab[i].p != TOMB) i = (i + 1) % cap;
    if (!tab[i].p) used++;
    tab[i].p = p; tab[i].sz = sz; live++;
}
static long find(void *p) {
    if (!cap) return -1;
    for (size_t i = slot(p) % cap; tab[i].p; i = (i + 1) % cap) if (tab[i].p == p) return (long)i;
    return -1;
}
static int del(void *p) { long i = find(p); if (i < 0) return 0; tab[i].p = TOMB; live--; return 1; }
/* blocks that lie next to each other, without anything between them */
#ifdef __SANITIZE_ADDRESS__
void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t);
#else
#define __asan_poison_memory_region(p, n) ((void)0)
#define __asan_unpoison_memory_region(p, n) ((void)0)
#endif
static char arena[1 << 20] __attribute__((aligned(64))); static size_t apos;
static int in_arena(void *p) { return (char *)p >= arena && (char *)p < arena + sizeof arena; }
void *va_adjacent(size_t n) {
    if (!n) n = 1;
    size_t al = n & -n; if (al > 16) al = 16;
    size_t at = (apos + al - 1) / al * al;
    if (at + n > sizeof arena) return NULL;
    apos = at + n; memset(arena + at, 0, n); put(arena + at, n);
    return arena + at;
}
/* blocks that lie far apart: neighbours in time differ by more than an int can tell, and many have the same low half */
#include <sys/mman.h>
#define SLOTS 64
#define SLOT (1ull << 32)
static char *far_base; static int far_n, far_bad; static struct { char *p; size_t n; } far_b[4096];
static int in_far(void *p) { return far_base && (char *)p >= far_base && (char *)p < far_base + SLOTS * SLOT; }
void *va_far(size_t n) {
    if (!n) n = 1;
    if (!far_base && !far_bad) {
        char *r = mmap(NULL, (SLOTS + 1) * SLOT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (r == MAP_FAILED) far_bad = 1; else far_base = (char *)(((uintptr_t)r + SLOT - 1) / SLOT * SLOT);
    }
    if (far_bad || n > 65536 || far_n >= 4096) return NULL;
    int i = far_n, r = i / SLOTS;
    char *p = far_base + (uint64_t)(i * 37 % SLOTS) * SLOT + (i % 3 ? 0 : SLOT / 2) + (uint64_t)(r + 1) * 65536;
    char *pg = (char *)((uintptr_t)p & ~4095ul);
    if (mprotect(pg, (p + n - pg + 4095) & ~4095ul, PROT_READ | PROT_WRITE)) return NULL;
    far_b[far_n].p = p; far_b[far_n++].n = n; memset(p, 0, n); put(p, n);
    return p;
}
static void arena_reset(void) { while (far_n) { --far_n; __asan_unpoison_memory_region(far_b[far_n].p, far_b[far_n].n); } __asan_unpoison_memory_region(arena, apos); apos = 0; }
void va_begin(int f) { on = 1; n = 0; fail = f; from = 0; failed = 0; }
void va_begin_from(int f) { va_begin(f); from = 1; }
int va_done(void) { on = 0; return n; }
int va_failed(void) { return failed; }
long va_live(void) { return live; }
long va_bad(void) { return bad; }
void va_reset(void) { if (cap) memset(tab, 0, cap * sizeof *tab); used = 0; live = 0; bad = 0; arena_reset(); }
int va_is_live(void *p) { return p && find(p) >= 0; }
size_t va_size(void *p) { long i = p ? find(p) : -1; return i < 0 ? 0 : tab[i].sz; }
void va_each(void (*fn)(void *, size_t, void *), void *c) { for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].p != TOMB) fn(tab[i].p, tab[i].sz, c); }
static int deny(void) { ++n; if (fail && (n == fail || (from && n > fail))) { failed++; return 1; } return 0; }
void *__wrap_malloc(size_t s) {
    if (!on) return __real_malloc(s);
    if (deny()) return NULL;
    void *p = __real_malloc(s); if (p) put(p, s); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!on) return __real_calloc(a, b);
    if (deny()) return NULL;
    void *p = __real_calloc(a, b); if (p) put(p, a * b); return p;
}
void *__wrap_realloc(void *o, size_t s) {
    if (!on) { int t = o && del(o); void *p = __real_realloc(o, s); if (t && p) put(p, s); return p; }
    if (deny()) return NULL;
    if (o && !del(o)) bad++;
    void *p = __real_realloc(o, s); if (p) put(p, s); return p;
}
char *__wrap_strdup(const char *s) { size_t l = strlen(s) + 1; char *p = __wrap_malloc(l); if (p) memcpy(p, s, l); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t l = strnlen(s, m); char *p = __wrap_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
void __wrap_free(void *p) {
    if (p && (in_arena(p) || in_far(p))) { size_t z = va_size(p); if (!del(p)) bad++; else __asan_poison_memory_region(p, z); return; }
    if (p && !del(p) && on) bad++;
    __real_free(p);
}
void *raw_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void *raw_malloc(size_t s) { return __real_malloc(s); }
void raw_free(void *p) { __real_free(p); }
