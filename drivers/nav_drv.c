/* "K TYPE ROOTSIZE steps" -> records as in cdecl_drv.c, one per failed allocation in constructing and stepping.
 * Navigation: "TYPE ROOTSIZE steps.. | badsteps.."; prints the observation of the reached value and the fate of every bad step. */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
static unsigned char *blk; static long blksz; static int nblk;
static metac_value_t *step(metac_value_t *v, char *s, int dry) {
    char k = *s++;
    if (k == 'm') return metac_new_value_by_member_id(v, atoi(s));
    if (k == 'n') { int id = metac_entry_member_name_to_id(metac_value_entry(v), s); return metac_new_value_by_member_id(v, id); }
    if (k == 'e') return metac_new_value_by_element_id(v, atoi(s));
    if (k == 'c') return metac_new_element_count_value(v, atoi(s));
    if (k == 'p' || k == 'C') {
        char *c = strchr(s, ':'); long sz = c ? atol(c + 1) : atol(s);
        unsigned char *nb = tdl_mem(64 + 30 * sz); /* room for overridden element counts */
        if (metac_value_set_pointer(v, nb) != 0) return 0;
        blk = nb; blksz = sz; ++nblk;
        if (k == 'C') return metac_new_element_count_value(v, atoi(s));
        void *a = 0; if (metac_value_pointer(v, &a) != 0 || a != nb) return 0;
        return metac_new_value(metac_entry_pointer_entry(metac_value_entry(v)), a);
    }
    return 0;
}
int main(void) {
    static char line[1 << 20];
    while (fgets(line, sizeof line, stdin)) {
        /* "H TYPE ROOTSIZE ..": the object is too large to exist; nothing of it may be read */
        int k = line[0] == 'K', h = line[0] == 'H'; tdl_begin(line + 2 * (k || h)); metac_entry_t *e = tdl_parse(); blksz = tdl_num(); blk = h ? (unsigned char *)0x100000000000 : tdl_mem(64 + 30 * blksz); nblk = 0;
        if (k) {
            metac_value_t *v = 0; char *st = "";
            do {
                metac_value_t *ref = *st ? step(v, st, 0) : metac_new_value(e, blk);
                for (int from = 0; from < 2; ++from) for (int i = 1, hit = 1; hit; ++i) {
                    if (from) va_begin_from(i); else va_begin(i);
                    metac_value_t *n = *st ? step(v, st, 0) : metac_new_value(e, blk); hit = va_failed();
                    char *o = !n ? "refused" : ref && (*st == 'c' || *st == 'C' ? metac_value_kind(ref) == metac_value_kind(n) && metac_value_element_count(ref) == metac_value_element_count(n) : metac_value_entry(ref) == metac_value_entry(n)) && ((*st == 'p' || *st == 'C') || metac_value_addr(ref) == metac_value_addr(n)) ? "done" : "wrong";
                    if (n) metac_value_delete(n);
                    va_done(); printf("%d %d %s %ld %ld ", hit ? i : 0, from, o, va_live(), va_bad()); va_reset();
                }
                if (v) metac_value_delete(v);
                v = ref;
            } while (v && (st = tdl_tok()));
            if (v) metac_value_delete(v);
            printf("\n"); fflush(stdout); while (tdl_tok()); tdl_reset(); continue;
        }
        va_begin(0);
        metac_value_t *v = metac_new_value(e, blk); char *s; int fail = 0;
        /* member paths are also followed on the entries alone */
        metac_entry_t *ent = e; metac_entry_id_t ids[16]; int nid = 0; metac_entry_t *base = e;
        while ((s = tdl_tok()) && strcmp(s, "|")) {
            if (*s == 'm' || *s == 'n') { ids[nid].i = *s == 'm' ? atoi(s + 1) : 0; ids[nid].n = *s == 'n' ? s + 1 : 0; ++nid; }
            metac_value_t *n = step(v, s, 0);
            metac_value_delete(v); v = n; if (!v) { fail = 1; break; }
            if (*s != 'm' && *s != 'n') { base = metac_value_entry(v); nid = 0; }
            else { metac_entry_t *x = metac_entry_by_member_ids(base, 0, ids, nid), *y = metac_entry_by_member_ids(base, 1, ids, nid);
                if (x != metac_value_entry(v) || y != metac_entry_final_entry(metac_value_entry(v), NULL)) { printf("IDS "); } }
        }
        if (fail) { while (s && strcmp(s, "|")) s = tdl_tok(); printf("NOVALUE %s", s ? "" : "?"); while (tdl_tok()); }
        else {
            metac_entry_t *w = metac_value_entry(v); metac_quals_t q = {0}; metac_size_t sz = 12345; metac_entry_t *f = metac_entry_final_entry(w, &q);
            int rc = metac_entry_byte_size(w, &sz);
            metac_quals_t q2 = {0}; int fk = f ? metac_value_final_kind(v, &q2) : -1;
            char nmb[128] = "-", *nm = metac_value_name(v); if (nm) { snprintf(nmb, 128, "%s", nm); for (char *c = nmb; *c; ++c) if (*c == ' ') *c = '~'; }
            printf("%d %ld %d %s %d %d %ld", nblk, (long)((unsigned char *)metac_value_addr(v) - blk), metac_value_kind(v), nmb, fk, f ? q.flags : 0, rc == 0 ? (long)sz : -1L);
            if (f && q.flags != q2.flags) printf("Q!");
            printf(" %d %d %d", metac_value_has_elements(v) ? metac_value_element_count(v) : -100, metac_value_has_members(v) ? metac_value_member_count(v) : -100,
                   metac_value_is_pointer(v) * 1 + metac_value_is_void_pointer(v) * 2 + metac_value_is_declaration_pointer(v) * 4 + metac_value_is_enumeration(v) * 8 + metac_value_is_base_type(v) * 16);
            if (!metac_value_has_elements(v) && metac_value_element_count(v) >= 0) printf("EC!");
            if (!metac_value_has_members(v) && metac_value_member_count(v) >= 0) printf("MC!");
            if (metac_entry_is_pointer(w) != metac_value_is_pointer(v) || metac_entry_has_elements(w) != metac_value_has_elements(v) || metac_entry_has_members(w) != metac_value_has_members(v) ||
                metac_entry_is_enumeration(w) != metac_value_is_enumeration(v) || metac_entry_is_base_type(w) != metac_value_is_base_type(v)) printf("EV!");
            printf(" ");
            while ((s = tdl_tok())) { metac_value_t *n = step(v, s, 1); printf("%c", n ? 'X' : '-'); if (n) metac_value_delete(n);
                if (*s == 'm' && metac_entry_by_member_id(w, atoi(s + 1))) printf("B");
                if (*s == 'n' && (metac_entry_by_member_ids(w, 0, (metac_entry_id_t[]){{.n = s + 1}}, 1))) printf("B"); }
            metac_value_delete(v);
        }
        va_done(); if (va_live() || va_bad()) printf("LEAK%ld/%ld", va_live(), va_bad()); va_reset();
        printf("\n"); fflush(stdout); tdl_reset();
    }
}
