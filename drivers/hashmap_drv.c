/* Line-oriented driver for src/hashmap.c. args: <const|mod2|id|neg> <initial capacity> */
#include "metac/backend/hashmap.h"
#include "alloc.h"
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#define NK 1024
struct key { int id; int pad; };
static struct key keys[NK][2];
static int hv[NK];
static int hash(void *k) { return hv[((struct key*)k)->id]; }
static int bytes(void *k) { return hashmapHash(k, sizeof(int)); }
static bool eq(void *a, void *b) { return ((struct key*)a)->id == ((struct key*)b)->id; }
static int mix(int h) { h += ~((unsigned)h << 9); h ^= ((unsigned)h) >> 14; h += (int)((unsigned)h << 4); h ^= ((unsigned)h) >> 10; return h; }
static void setup(const char *m) {
    for (int k = 0; k < NK; k++) {
        keys[k][0].id = keys[k][1].id = k;
        if (!strcmp(m, "int")) { keys[k][0].pad = 1; keys[k][1].pad = 2; continue; }
        if (!strcmp(m, "const")) hv[k] = 0;
        else if (!strcmp(m, "neg")) hv[k] = k % 3 == 0 ? (int)0x80000000 : k % 3 == 1 ? -1 : 0x7fffffff;
        else if (!strcmp(m, "rnd")) hv[k] = (int)((unsigned)(k + 1) * 2654435761u);
        else if (!strcmp(m, "high")) hv[k] = (int)((unsigned)k << 21);
        else { int want = !strcmp(m, "mod2") ? k % 2 : k; 
            /* different raw hashes that land in the wanted bucket */
            int h = k * 7919 - 100000; while ((mix(h) & 31) != (want & 31)) h++; hv[k] = h; }
    }
}
static Hashmap *m; static long base;
static int calls; static void *initval(void *k, void *ctx) { calls++; return ctx; }
static int seen[NK]; static long vals[NK]; static int visits, stop_at;
static bool cb(void *k, void *v, void *c) { if (c != &stop_at) return false; visits++; int id = ((struct key*)k)->id; seen[id]++; vals[id] = (long)(intptr_t)v; return !(stop_at && visits >= stop_at); }
static int denied;   /* some allocation was denied since the map was created: it may have failed to grow */
static const char *shape(const char *mode, size_t cap0) {
    size_t n = hashmapSize(m), c = hashmapCurrentCapacity(m), x = hashmapCountCollisions(m);
    if (c < cap0 || (!denied && c < n)) return " capacity";
    if (n == 0 ? x != 0 : x >= n) return " collisions";
    if (!strcmp(mode, "const") && n && x != n - 1) return " collisions";
    return "";
}
int main(int argc, char **argv) {
    setup(argv[1]); size_t cap0 = atoi(argv[2]);
    int (*hash0)(void*) = hash; bool (*eq0)(void*, void*) = eq;
    if (!strcmp(argv[1], "int")) { hash0 = hashmapIntHash; eq0 = hashmapIntEquals; } else if (!strcmp(argv[1], "bytes")) hash0 = bytes;
    va_begin(0); m = hashmapCreate(cap0, hash0, eq0); va_done();
    char line[256], op[32];
    while (fgets(line, sizeof line, stdin)) {
        int k = 0, v = 0, f = 0, in = 0; sscanf(line, "%31s %d %d %d %d", op, &k, &v, &f, &in); if (f) denied = 1;
        /* a fresh, temporary key object for lookups is as good as the stored one */
        void *key = &keys[k][in == 1], *pv = (void*)(intptr_t)v, *res = (void*)0xdead;
        if (!strcmp(op, "put")) {
            va_begin(f); int rc = hashmapPut(m, key, pv, in == 2 ? NULL : &res); va_done();
            if (rc) rc = rc < 0 ? -1 : 7;
            if (in == 2) printf("%d", rc); else printf("%d %ld", rc, (long)(intptr_t)res);
        } else if (!strcmp(op, "memo")) {
            calls = 0; va_begin(f); int rc = hashmapMemoize(m, key, initval, pv, in == 2 ? NULL : &res); va_done();
            if (rc) { rc = rc < 0 ? -1 : 7; res = NULL; }
            if (in == 2) printf("%d %d", rc, calls); else printf("%d %ld %d", rc, (long)(intptr_t)res, calls);
        } else if (!strcmp(op, "get")) { va_begin(0); printf("%ld", (long)(intptr_t)hashmapGet(m, key)); va_done();
        } else if (!strcmp(op, "has")) { va_begin(0); printf("%d", (int)hashmapContainsKey(m, key)); va_done();
        } else if (!strcmp(op, "rm")) { va_begin(0); printf("%ld", (long)(intptr_t)hashmapRemove(m, key)); va_done();
        } else if (!strcmp(op, "size")) { printf("%ld%s", (long)hashmapSize(m), shape(argv[1], cap0));
        } else if (!strcmp(op, "each") || !strcmp(op, "stop")) {
            memset(seen, 0, sizeof seen); visits = 0; stop_at = op[0] == 's' ? k : 0;
            va_begin(0); hashmapForEach(m, cb, &stop_at); va_done();
            int dup = 0; for (int i = 0; i < NK; i++) dup += seen[i] > 1;
            if (dup) printf("dup "); 
            if (stop_at) { for (int i = 0; i < NK; i++) if (seen[i] && (!hashmapContainsKey(m, &keys[i][0]) || (long)(intptr_t)hashmapGet(m, &keys[i][0]) != vals[i])) printf("wrong "); printf("%d", visits); }
            else { int first = 1; for (int i = 0; i < NK; i++) if (seen[i]) { printf(first ? "%d %ld" : " %d %ld", i, vals[i]); first = 0; } }
        } else if (!strcmp(op, "reset")) {
            va_begin(0); hashmapFree(m); va_done(); long l = va_live() + va_bad();
            denied = 0; va_reset(); va_begin(0); m = hashmapCreate(cap0, hash0, eq0); va_done(); printf("%ld", l);
        } else if (!strcmp(op, "newfail")) {
            long l0 = va_live(); va_begin(k); Hashmap *t = hashmapCreate(3, hash0, eq0); va_done();
            int r = t == NULL; if (t) { va_begin(0); hashmapFree(t); va_done(); }
            printf("%d %ld", r, va_live() - l0 + va_bad());
        }
        printf("\n"); fflush(stdout);
    }
    return 0;
}
