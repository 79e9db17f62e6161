/* Deep operations on raw memory.  Every block the commands talk about is allocated through the tracked allocator.
 *  X TYPE            defines labelled types            -> "."
 *  A SIZE            a block filled with 0xaa           -> address
 *  B 0|1|2           from now on blocks lie apart | next to each other | far apart (the caller's allocator as well) -> "."
 *  W ADDR HEX ...    writes (several pairs)             -> "."
 *  R ADDR N ...      reads                              -> hex (concatenated)
 *  V ADDR TYPE       a value over an address            -> handle
 *  C H1 H2 MB UP UN FX FN   deep copy                   -> ok|fail +addr:size.. -addr.. #calls
 *  Q H1 H2 MB UP UN FX      deep comparison, both ways  -> r1 r2 ..
 *  F H UP UN FX FN          deep release                -> ok|fail -addr..
 *  S H MODE          text                               -> text, "-" if none
 *  K N FROM COMMAND  COMMAND with the N'th allocation (and, if FROM, all later ones) failing; answer ends with " hit" if it was reached
 *  M                 an empty tag map, used by the operations from now on -> "."
 *  G LABEL PATH KIND ...    annotates a member (PATH: member numbers joined by '.') of a labelled type; G H - KIND .. the entry of value H -> result
 *      KIND: count SIB | zs | sel SIB N (VAL ID NAME)* | perm ID | cast COUNTSIB SIB N (VAL TYPE)* | cont OFFSET TYPE
 *  H KIND ...        makes the data of an annotation with every single allocation failing -> groups as in the other drivers
 *  Z                 forgets everything                 -> "." */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
static struct { void *p; size_t sz; int seen; } own[1 << 18]; static int nown;
static metac_value_t *val[4096]; static int nval;
static struct { void *p; } call[1 << 18], rel[1 << 18]; static int ncall, nrel;
static int adj;
static void *placed(size_t n) { return adj == 1 ? va_adjacent(n) : adj == 2 ? va_far(n) : 0; }
static void *my_calloc(size_t a, size_t b) { void *p = placed(a * b); if (!p) p = calloc(a, b); if (p) call[ncall++].p = p; return p; }
static void my_free(void *p) { rel[nrel++].p = p; free(p); }
static void mark(void *p, size_t sz, void *c) {
    for (int i = 0; i < nown; ++i) if (own[i].p == p && own[i].seen != 2) { own[i].seen = 1; return; }
    own[nown].p = p; own[nown].sz = sz; own[nown++].seen = 2;
}
/* what changed in the set of live blocks since the last call */
static void diff(void) {
    for (int i = 0; i < nown; ++i) own[i].seen = 0;
    va_each(mark, 0);
    int k = 0;
    for (int i = 0; i < nown; ++i) {
        if (own[i].seen == 2) { int mine = 0; for (int j = 0; j < ncall; ++j) if (call[j].p == own[i].p) mine = 1; printf(" +%p:%zu%s", own[i].p, own[i].sz, mine ? "" : "i"); }
        if (own[i].seen == 0) { int mine = 0; for (int j = 0; j < nrel; ++j) if (rel[j].p == own[i].p) mine = 1; printf(" -%p%s", own[i].p, mine ? "" : "i"); continue; }
        own[k++] = own[i];
    }
    nown = k;
    if (va_bad()) printf(" BAD%ld", va_bad());
}
static void *addr(void) { char *t = tdl_tok(); return (void *)strtoull(t ? t : "0", 0, 16); }
static metac_tag_map_t *tmap;
static char *nz(char *s) { return strcmp(s, "-") ? s : 0; }
struct ann { char *k, *sib, *cnt; int n, off; struct metac_union_member_select_by_case *u; struct metac_ptr_cast_case *c; metac_entry_t *e; };
static void ann_read(struct ann *x) {
    x->k = tdl_tok();
    if (!strcmp(x->k, "count")) x->sib = tdl_tok();
    else if (!strcmp(x->k, "perm")) x->off = tdl_num();
    else if (!strcmp(x->k, "sel")) { x->sib = tdl_tok(); x->n = tdl_num(); x->u = tdl_mem(sizeof *x->u * (x->n + 1));
        for (int i = 0; i < x->n; ++i) { x->u[i].fld_val = tdl_num(); x->u[i].union_fld_id = tdl_num(); char *q = nz(tdl_tok()); if (q) { x->u[i].union_fld_name = tdl_mem(strlen(q) + 1); strcpy(x->u[i].union_fld_name, q); } } }
    else if (!strcmp(x->k, "cast")) { x->cnt = nz(tdl_tok()); x->sib = tdl_tok(); x->n = tdl_num(); x->c = tdl_mem(sizeof *x->c * (x->n + 1));
        for (int i = 0; i < x->n; ++i) { x->c[i].fld_val = tdl_num(); x->c[i].p_ptr_entry = tdl_parse(); } }
    else if (!strcmp(x->k, "cont")) { x->off = tdl_num(); x->e = tdl_parse(); }
}
static metac_entry_tag_t ann_make(struct ann *x) {
    metac_entry_tag_t t = {0};
    if (!strcmp(x->k, "count")) { t.handler = metac_handle_count_by; t.p_context = metac_new_count_by_context(x->sib); t.context_free_handler = metac_count_by_context_delete; }
    else if (!strcmp(x->k, "zs")) t.handler = metac_handle_zero_ended_string;
    else if (!strcmp(x->k, "perm")) { t.handler = metac_handle_union_member_select; t.p_context = metac_new_union_member_permanent_selection(x->off); t.context_free_handler = metac_union_member_select_by_context_delete; }
    else if (!strcmp(x->k, "sel")) { t.handler = metac_handle_union_member_select; t.p_context = metac_new_union_member_select_by_context(x->sib, x->u, x->n * sizeof *x->u); t.context_free_handler = metac_union_member_select_by_context_delete; }
    else if (!strcmp(x->k, "cast")) { t.handler = metac_handle_ptr_cast; t.p_context = metac_new_ptr_cast_context(x->cnt, x->sib, x->c, x->n * sizeof *x->c); t.context_free_handler = metac_ptr_cast_context_delete; }
    else if (!strcmp(x->k, "cont")) { t.handler = metac_handle_container_of; t.p_context = metac_new_container_of_context(x->off, x->e); t.context_free_handler = metac_container_of_context_delete; }
    return t;
}
static int annotate(void) {
    char *l = tdl_tok(), *path = tdl_tok(); metac_entry_t *e;
    if (*path == '-') e = metac_value_entry(val[atoi(l)]);
    else { e = tdl_label(l); for (char *c = strtok(path, "."); c; c = strtok(0, ".")) e = metac_entry_by_member_id(e, atoi(c)); }
    struct ann x = {0}; ann_read(&x); metac_entry_tag_t t = ann_make(&x);
    return metac_tag_map_set_tag(tmap, 0, 0, e, METAC_TEO_entry, &t);
}
static int fat, ffrom;
static void begin(void) { if (ffrom) va_begin_from(fat); else va_begin(fat); }
int main(void) {
    static char line[1 << 23];
    static metac_value_memory_map_mode_t m;
    while (fgets(line, sizeof line, stdin)) {
        tdl_begin(line); char *op = tdl_tok(); if (!op) op = "";
        ncall = nrel = 0; fat = ffrom = 0; int k = *op == 'K';
        if (k) { fat = tdl_num(); ffrom = tdl_num(); op = tdl_tok(); }
        if (*op == 'X') { tdl_parse(); printf("."); }
        else if (*op == 'A') { size_t n = tdl_num(); va_begin(0); void *p = placed(n); if (!p) p = malloc(n); va_done(); memset(p, 0xaa, n); own[nown].p = p; own[nown++].sz = n; printf("%p", p); }
        else if (*op == 'B') { adj = tdl_num(); printf("."); }
        else if (*op == 'W') { char *t; while ((t = tdl_tok())) { unsigned char *p = (void *)strtoull(t, 0, 16); static unsigned char b[1 << 20]; int n = tdl_hex(b, sizeof b); memcpy(p, b, n); } printf("."); }
        else if (*op == 'R') { char *t; while ((t = tdl_tok())) { unsigned char *p = (void *)strtoull(t, 0, 16); int n = tdl_num(); if (n) hexout(p, n); } }
        else if (*op == 'V') { void *p = addr(); metac_entry_t *e = tdl_parse(); val[nval] = metac_new_value(e, p); printf("%d", val[nval] ? nval : -1); ++nval; }
        else if (*op == 'C') {
            int a = tdl_num(), b = tdl_num(); m.memory_block_mode = tdl_num(); m.unknown_ptr_mode = tdl_num(); m.union_mode = tdl_num(); m.flex_array_mode = tdl_num(); int fn = tdl_num();
            int def = fn == 2; begin();
            metac_value_t *r = metac_value_copy_ex(val[a], val[b], def ? 0 : &m, fn ? 0 : my_calloc, fn ? 0 : my_free, tmap);
            va_done(); printf("%s", r == val[b] ? "ok" : r ? "other" : "fail"); diff(); printf(" #%d ~%d", ncall, nrel);
        }
        else if (*op == 'Q') {
            int a = tdl_num(), b = tdl_num(); m.memory_block_mode = tdl_num(); m.unknown_ptr_mode = tdl_num(); m.union_mode = tdl_num(); m.flex_array_mode = tdl_num();
            begin(); int x = metac_value_equal_ex(val[a], val[b], &m, tmap), y = k ? x : metac_value_equal_ex(val[b], val[a], &m, tmap); va_done();
            printf("%d %d", x < 0 ? -1 : x, y < 0 ? -1 : y); diff();
        }
        else if (*op == 'F') {
            int a = tdl_num(); metac_value_memory_map_non_handled_mode_t f; f.unknown_ptr_mode = tdl_num(); f.union_mode = tdl_num(); f.flex_array_mode = tdl_num(); int fn = tdl_num();
            begin(); int r = metac_value_free_ex(val[a], fn == 2 ? 0 : &f, fn ? 0 : my_free, tmap); va_done();
            printf("%s", r ? "ok" : "fail"); diff(); printf(" #%d", nrel);
        }
        else if (*op == 'S') {
            int a = tdl_num(), w = tdl_num(); begin(); char *s = metac_value_string_ex(val[a], w ? METAC_WMODE_deep : METAC_WMODE_shallow, tmap); 
            printf("%s\x01", s ? s : "-"); free(s); va_done(); diff();
        }
        else if (*op == 'M') { if (tmap) metac_tag_map_delete(tmap); tmap = metac_new_tag_map(0); printf("%s", tmap ? "." : "-"); }
        else if (*op == 'G') printf("%d", annotate());
        else if (*op == 'H') { /* the annotation's data made and released with every allocation failing */
            struct ann x = {0}; ann_read(&x); printf("\x01");
            for (int from = 0; from < 2; ++from) for (int i = 1, hit = 1; hit; ++i) {
                if (from) va_begin_from(i); else va_begin(i);
                metac_entry_tag_t t = ann_make(&x); hit = va_failed();
                char *o = t.p_context || !t.context_free_handler ? "done" : "refused"; if (t.p_context) t.context_free_handler(t.p_context); va_done();
                printf("%d %d %s %ld %ld ", hit ? i : 0, from, o, va_live(), va_bad()); va_reset();
            }
        }
        else if (*op == 'Z') { if (tmap) metac_tag_map_delete(tmap); tmap = 0; while (nval) if (val[--nval]) metac_value_delete(val[nval]); for (int i = 0; i < nown; ++i) free(own[i].p); nown = 0; adj = 0; va_reset(); tdl_reset(); printf("."); }
        else printf("?");
        if (k && va_failed()) printf(" hit");
        printf("\n"); fflush(stdout);
    }
    return 0;
}
