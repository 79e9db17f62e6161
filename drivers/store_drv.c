/* Histories of argument storages.  "K? op..": B path e hex | N path | S path i hex | X path | Y path from | R path; a path is "0.1.2".
 * After every operation both storages are listed.  With K every operation is first tried with each of its allocations failing. */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
static metac_parameter_storage_t *root[2]; static metac_entry_t *ent[5], *chr, *str, *dots;
static metac_parameter_storage_t *at(char *p) {
    metac_parameter_storage_t *s = root[strtol(p, &p, 10)];
    while (s && *p == '.') {
        metac_value_t *v = metac_parameter_storage_new_param_value(s, strtol(p + 1, &p, 10));
        s = v ? metac_value_addr(v) : 0; if (v) metac_value_delete(v);
    }
    return s;
}
static char out[1 << 16]; static int len;
#define P(...) (len += snprintf(out + len, sizeof out - len, __VA_ARGS__))
static void list(metac_parameter_storage_t *s) {
    int n = metac_parameter_storage_size(s); P("(");
    for (int i = -1; i < n + 2; ++i) {
        metac_value_t *v = metac_parameter_storage_new_param_value(s, i);
        if (i < 0 || i >= n) { if (v) P("extra"); continue; }
        if (!v) { P("none "); continue; }
        metac_entry_t *e = metac_value_entry(v); int k = -1; metac_size_t z = 0;
        if (metac_value_has_parameter_load(v)) {
            metac_parameter_storage_t *sub = metac_value_addr(v);
            if (e != dots) P("otherentry");
            if (metac_value_parameter_count(v) != metac_parameter_storage_size(sub)) P("othercount");
            for (int j = 0; j <= metac_value_parameter_count(v); ++j) {
                metac_value_t *a = metac_value_parameter_new_item(v, j), *b = metac_parameter_storage_new_param_value(sub, j);
                if (!a != !b || (a && (metac_value_addr(a) != metac_value_addr(b) || metac_value_kind(a) != metac_value_kind(b)))) P("otheritem");
                if (a) metac_value_delete(a);
                if (b) metac_value_delete(b);
            }
            list(sub);
        } else {
            for (int j = 0; j < 5; ++j) if (e == ent[j]) k = j;
            if (k < 0 && metac_value_has_elements(v) && metac_entry_element_entry(e) == chr) { k = 5; z = metac_value_element_count(v); } else metac_entry_byte_size(e, &z);
            P("%d:", k); for (int j = 0; j < (int)z; ++j) P("%02x", ((unsigned char *)metac_value_addr(v))[j]); P(" ");
        }
        metac_value_delete(v);
    }
    P(") ");
}
static char *both(void) { len = 0; list(root[0]); list(root[1]); return out; }
static int append(metac_parameter_storage_t *s, int e, int n) { /* allocation of the caller's own dynamic description is not under test */
    metac_entry_t *x = e < 5 ? ent[e] : metac_new_element_count_entry(str, n);
    if (!x) return -1;
    int r = metac_parameter_storage_append_by_buffer(s, x, n);
    if (e >= 5) metac_entry_delete(x);
    return r;
}
int main(void) {
    static char line[1 << 20], tys[] = "b int 5 4 b char 6 1 s S1 24 3 m m1 0 b int 5 4 m m2 8 b double 4 8 m m3 16 p v b double 4 8 a 3 b long~int 5 8 p b char 6 1 f v 1 d";
    while (fgets(line, sizeof line, stdin)) {
        static char t2[sizeof tys]; memcpy(t2, tys, sizeof tys); tdl_begin(t2);
        for (int i = 0; i < 5; ++i) ent[i] = tdl_parse();
        str = tdl_parse(); chr = metac_entry_pointer_entry(str); dots = metac_entry_by_paremeter_id(tdl_parse(), 0);
        int k = line[0] == 'K'; tdl_begin(line + 2 * k);
        va_begin(0); root[0] = metac_new_parameter_storage(); root[1] = metac_new_parameter_storage(); va_done();
        int nop = 0; char *o; static char before[sizeof out];
        while ((o = tdl_tok())) {
            char *p = tdl_tok(); va_begin(0); metac_parameter_storage_t *s = at(p); va_done();
            int e = 0, n = 0, i = 0; static unsigned char b[4096]; char *q = 0; metac_parameter_storage_t *from = 0;
            if (*o == 'B') { e = tdl_num(); n = tdl_hex(b, sizeof b); }
            if (*o == 'S') { i = tdl_num(); n = tdl_hex(b, sizeof b); }
            if (*o == 'Y') { q = tdl_tok(); va_begin(0); from = at(q); va_done(); }
            va_begin(0); strcpy(before, both()); va_done();
            for (int f = k, done = 0, from1 = nop++ % 2; !done; ++f) {
                int r = 0;
                if (f && from1) va_begin_from(f); else va_begin(f);
                long l0 = va_live();
                if (*o == 'B') r = append(s, e, n);
                else if (*o == 'N') r = metac_parameter_storage_append_by_parameter_storage(s, dots);
                else if (*o == 'X') metac_parameter_storage_cleanup(s);
                else if (*o == 'Y') r = metac_parameter_storage_copy(from, s);
                else if (*o == 'R') {
                    if (!metac_parameter_storage_append_by_buffer(s, ent[0], 0) || !metac_parameter_storage_append_by_buffer(s, ent[0], -1) || !metac_parameter_storage_append_by_buffer(s, 0, 4) ||
                        !metac_parameter_storage_append_by_buffer(0, ent[0], 4) || metac_parameter_storage_size(0)) printf("notrefused ");
                    metac_parameter_storage_cleanup(0); metac_parameter_storage_delete(0);
                }
                int hit = va_failed(); va_done();
                if (r == 0) done = 1;
                else if (!hit) { printf("refused "); done = 1; }
                else { /* a failed operation leaves nothing behind; a failed copy may have come part of the way */
                    va_begin(0); if (*o == 'Y') metac_parameter_storage_cleanup(s);
                    if (va_live() != l0) printf("left%ld ", va_live() - l0);
                    if (strcmp(both(), before)) printf("changed %s ", out);
                    va_done();
                }
            }
            if (*o == 'B' || *o == 'S') {
                va_begin(0); metac_value_t *v = metac_parameter_storage_new_param_value(s, *o == 'S' ? i : metac_parameter_storage_size(s) - 1);
                if (v) { memcpy(metac_value_addr(v), b, n); metac_value_delete(v); } va_done();
            }
            va_begin(0); printf("%s|", both()); va_done();
        }
        va_begin(0); metac_parameter_storage_delete(root[0]); metac_parameter_storage_delete(root[1]); va_done();
        printf("%ld %ld\n", va_live(), va_bad()); fflush(stdout); va_reset(); tdl_reset();
    }
}
