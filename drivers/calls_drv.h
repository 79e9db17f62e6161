/* Captured calls: the part of the driver that does not depend on the generated functions.  Commands, after "H n" chose history n:
 *  N K SIZE          the caller's variable or block number K      -> address
 *  W K OFFSET HEX    writes it                                    -> "."
 *  C SET MAP         captures the call with argument set SET      -> "ok" | "refused LIVE BAD"
 *  L SLOT            parameters: name \2 type \2 bytes, separated by \1; a list of arguments is name \2 [ ... ]
 *  S SLOT DEEP MAP   text
 *  Y SLOT MODE MAP   deep copy into a new slot                    -> "ok|fail addr:size ..."
 *  O SLOT SLOT2      deep copy into a slot that is not empty
 *  Q S T MODE MAP    comparison, both ways
 *  D SLOT OWN        releases a slot (OWN: and what it owns)      -> "FREED BAD"
 *  R ADDR N          reads memory
 *  Z                 releases everything                          -> "LIVE BAD"
 *  K N FROM COMMAND  COMMAND with the N'th allocation failing */
#include "metac/reflect.h"
#include "metac/backend/entry.h"
#include "alloc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <complex.h>
#include <stdbool.h>
#include <stdarg.h>
static void *B[1024]; static size_t BZ[1024];
struct hist { metac_entry_t *(*ent)(void); metac_value_t *(*cap)(int set, metac_value_t *v, metac_tag_map_t *m); void (*tags)(metac_tag_map_t *m, metac_entry_t *e); };
static struct { metac_value_t *v; metac_parameter_storage_t *s; } slot[64]; static int nslot;
static struct { void *p; } call[4096]; static int ncall, nrel;
static void *my_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p && ncall < 4096) call[ncall++].p = p; return p; }
static void my_free(void *p) { nrel++; free(p); }
static void hexout(const void *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]); }
static void list(metac_value_t *v) {
    int n = metac_value_parameter_count(v);
    metac_value_t *x = metac_value_parameter_new_item(v, n); if (x) { printf("beyond\1"); metac_value_delete(x); }
    for (int i = 0; i < n; i++) {
        metac_value_t *p = metac_value_parameter_new_item(v, i);
        if (!p) { printf("none\1"); continue; }
        const char *nm = metac_value_name(p);
        if (metac_value_has_parameter_load(p)) { printf("%s\2[\1", nm ? nm : "..."); list(p); printf("]\1"); }
        else {
            metac_entry_t *e = metac_value_entry(p), *t = metac_entry_is_parameter(e) ? metac_entry_parameter_entry(e) : e; metac_size_t z = 0;
            char *c = t ? metac_entry_cdecl(t) : 0; metac_entry_byte_size(t, &z);
            printf("%s\2%s\2", nm ? nm : "-", c ? c : "?"); hexout(metac_value_addr(p), z); printf("\1"); free(c);
        }
        metac_value_delete(p);
    }
}
static char *tok(void) { return strtok(NULL, " \n"); }
static int run(struct hist *hs) {
    static char line[1 << 20]; struct hist *h = 0; metac_tag_map_t *map = 0;
    static metac_value_memory_map_mode_t lenient; lenient.unknown_ptr_mode = METAC_UPTR_as_values; lenient.union_mode = METAC_UNION_as_mem; lenient.flex_array_mode = METAC_FLXARR_ignore;
    static metac_value_memory_map_non_handled_mode_t lfree; lfree.unknown_ptr_mode = METAC_UPTR_ignore; lfree.union_mode = METAC_UNION_ignore; lfree.flex_array_mode = METAC_FLXARR_ignore;
    while (fgets(line, sizeof line, stdin)) {
        char *op = strtok(line, " \n"); if (!op) op = "";
        int k = *op == 'K', fat = 0, ffrom = 0;
        if (k) { fat = atoi(tok()); ffrom = atoi(tok()); op = tok(); }
        ncall = nrel = 0;
#define BEGIN (ffrom ? va_begin_from(fat) : va_begin(fat))
        if (*op == 'H') { h = hs + atoi(tok()); map = metac_new_tag_map(0); h->tags(map, h->ent()); va_reset(); nslot = 0; for (int i = 0; i < 1024; i++) { raw_free(B[i]); B[i] = 0; } printf("."); }
        else if (*op == 'N') { int i = atoi(tok()); BZ[i] = atoi(tok()); B[i] = raw_malloc(BZ[i]); memset(B[i], 0xbd, BZ[i]); printf("%lx", (long)B[i]); }
        else if (*op == 'W') {
            int i = atoi(tok()); size_t o = atoi(tok()); char *x = tok();
            for (; x[0] && x[1] && o < BZ[i]; x += 2, o++) { unsigned c; sscanf(x, "%2x", &c); ((unsigned char *)B[i])[o] = c; }
            printf(*x ? "?" : ".");
        } else if (*op == 'C') {
            int set = atoi(tok()), m = atoi(tok()); long l0 = va_live();
            BEGIN; metac_value_t *v = metac_new_value_with_call_params(h->ent()); metac_parameter_storage_t *s = v ? metac_value_addr(v) : 0; if (v) v = h->cap(set, v, m ? map : 0);
            if (v) { va_done(); slot[nslot].v = v; slot[nslot++].s = s; printf("ok"); }
            else { if (s) metac_parameter_storage_delete(s); va_done(); printf("refused %ld %ld", va_live() - l0, va_bad()); }
        } else if (*op == 'L') { int a = atoi(tok()); BEGIN; list(slot[a].v); va_done(); }
        else if (*op == 'S') { int a = atoi(tok()), d = atoi(tok()), m = atoi(tok()); long l0 = va_live(); BEGIN; char *t = metac_value_string_ex(slot[a].v, d ? METAC_WMODE_deep : METAC_WMODE_shallow, m ? map : 0); printf("%s\1", t ? t : "-"); free(t); va_done(); if (va_live() != l0 || va_bad()) printf("left"); }
        else if (*op == 'Y' || *op == 'O') {
            int a = atoi(tok()), b = *op == 'O' ? atoi(tok()) : nslot, st = *op == 'O' ? 0 : *tok() == 's', m = *op == 'O' ? 1 : atoi(tok()); long l0 = va_live();
            BEGIN; metac_value_t *v = *op == 'O' ? slot[b].v : metac_new_value_with_call_params(h->ent()); metac_parameter_storage_t *s = v ? metac_value_addr(v) : 0;
            metac_value_t *r = v ? metac_value_copy_ex(slot[a].v, v, st ? 0 : &lenient, my_calloc, my_free, m ? map : 0) : 0;
            if (r) { va_done(); if (*op == 'Y') { slot[nslot].v = v; slot[nslot++].s = s; } printf("ok"); for (int i = 0; i < ncall; i++) printf(" %lx:%zu", (long)call[i].p, va_size(call[i].p)); }
            else { int rest = 0; if (*op == 'Y' && v) metac_value_with_call_params_delete(v); va_done(); printf("fail %ld %ld %d", va_live() - l0, va_bad(), ncall - nrel); }
        } else if (*op == 'Q') {
            int a = atoi(tok()), b = atoi(tok()), st = *tok() == 's', m = atoi(tok()); long l0 = va_live();
            BEGIN; int x = metac_value_equal_ex(slot[a].v, slot[b].v, st ? 0 : &lenient, m ? map : 0), y = k ? x : metac_value_equal_ex(slot[b].v, slot[a].v, st ? 0 : &lenient, m ? map : 0); va_done();
            printf("%d %d", x < 0 ? -1 : x, y < 0 ? -1 : y); if (va_live() != l0 || va_bad()) printf(" left");
        } else if (*op == 'D') {
            int a = atoi(tok()), own = atoi(tok()), r = 1; BEGIN;
            if (own) r = metac_value_free_ex(slot[a].v, &lfree, my_free, map);
            if (k && !r && va_failed()) va_done(); else { metac_value_with_call_params_delete(slot[a].v); slot[a].v = 0; va_done(); }
            printf("%s %d %ld", r ? "ok" : "fail", nrel, va_bad());
        } else if (*op == 'R') { char *p = (char *)strtoull(tok(), 0, 16); hexout(p, atoi(tok())); }
        else if (*op == 'Z') { va_begin(0); for (int i = 0; i < nslot; i++) if (slot[i].v) metac_value_with_call_params_delete(slot[i].v); va_done(); nslot = 0; printf("%ld %ld", va_live(), va_bad()); metac_tag_map_delete(map); va_reset(); }
        if (k && va_failed()) printf(" hit");
        printf("\n"); fflush(stdout);
    }
    return 0;
}
