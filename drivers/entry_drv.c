/* Queries on descriptions: "ROOT | move.. | move.."; the first moves are followed, the answers of the description reached
 * are printed as key=value, and for each of the other moves whether it gives a description ('Y') or nothing ('-').
 * "K ROOT | move.. |": records "point from outcome live bad" for each failed allocation in copying, recounting and making a result */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
static metac_entry_t *own[64]; static int nown;
static metac_entry_t *keep(metac_entry_t *e) { if (e && nown < 64) own[nown++] = e; return e; }
static metac_entry_t *move(metac_entry_t *e, char *s) {
    char o = *s++; int fin = *s++ - '0';
    switch (o) {
    case 'f': return metac_entry_final_entry(e, 0);
    case 'p': return metac_entry_pointer_entry(e);
    case 'e': return metac_entry_element_entry(e);
    case 'm': { metac_entry_id_t id[] = {{.i = atoi(s)}}; metac_entry_t *r = metac_entry_by_member_ids(e, fin, id, 1), *d = metac_entry_by_member_id(e, atoi(s));
        if (fin ? (d ? metac_entry_final_entry(d, 0) : 0) != r : d != r) printf("DIFF:%s ", s); return r; }
    case 'n': { metac_entry_id_t id[] = {{.i = 0, .n = s}}; int k = metac_entry_member_name_to_id(e, s); metac_entry_t *r = metac_entry_by_member_ids(e, fin, id, 1), *d = k < 0 ? 0 : metac_entry_by_member_id(e, k);
        if (fin ? (d ? metac_entry_final_entry(d, 0) : 0) != r : d != r) printf("DIFF:%s ", s); return r; }
    case 'M': return metac_entry_member_entry(e);
    case 'u': return metac_entry_parent_count(e) == 1 ? metac_entry_parent_entry(e, 0) : 0;
    case 'a': { metac_entry_id_t id[] = {{.i = atoi(s)}}; metac_entry_t *r = metac_entry_by_parameter_ids(e, fin, id), *d = metac_entry_by_paremeter_id(e, atoi(s));
        if (fin ? (d ? metac_entry_final_entry(d, 0) : 0) != r : d != r) printf("DIFF:%s ", s); return r; }
    case 'A': { metac_entry_id_t id[] = {{.i = 0, .n = s}}; int k = metac_entry_paremeter_name_to_id(e, s); metac_entry_t *r = metac_entry_by_parameter_ids(e, fin, id), *d = k < 0 ? 0 : metac_entry_by_paremeter_id(e, k);
        if (fin ? (d ? metac_entry_final_entry(d, 0) : 0) != r : d != r) printf("DIFF:%s ", s); return r; }
    case 'Q': return metac_entry_parameter_entry(e);
    case 'r': return metac_entry_result_type(e);
    case 'c': return keep(metac_new_element_count_entry(e, atoi(s)));
    case 'y': return keep(metac_new_entry(e));
    }
    fprintf(stderr, "move %c\n", o); exit(3);
}
static void drop(int to) { while (nown > to) metac_entry_delete(own[--nown]); }
static void str(const char *k, const char *s) { printf("%s=", k); if (!s) printf("-"); else for (; *s; ++s) putchar(*s == ' ' ? '~' : *s); putchar(' '); }
static void answers(metac_entry_t *e) {
    metac_quals_t q; memset(&q, 0xff, sizeof q); metac_entry_t *f = metac_entry_final_entry(e, &q);
    printf("kind=%d ", metac_entry_kind(e)); str("name", metac_entry_name(e)); printf("dyn=%d ", metac_entry_is_dynamic(e) != 0);
    printf("fkind=%d ", metac_entry_kind(f)); str("fname", metac_entry_name(f)); printf("quals=%d ", e ? (int)q.flags : 0);
    metac_size_t sz = 777; int rc = metac_entry_byte_size(e, &sz); printf("size=%ld ", rc ? -1L : (long)sz);
    printf("base=%d ", metac_entry_is_base_type(e)); str("bname", metac_entry_base_type_name(e));
    metac_encoding_t enc = 99; sz = 777; rc = metac_entry_base_type_byte_size(e, &sz); printf("bsize=%ld ", rc ? -1L : (long)sz); rc = metac_entry_base_type_encoding(e, &enc); printf("benc=%d ", rc ? -1 : (int)enc);
    printf("is=");
#define I(x) if (metac_entry_is_##x(e)) printf("%s,", #x)
    I(char); I(uchar); I(short); I(ushort); I(int); I(uint); I(long); I(ulong); I(llong); I(ullong); I(bool); I(float); I(double); I(ldouble); I(float_complex); I(double_complex); I(ldouble_complex);
    printf(" ptr=%d vp=%d dp=%d ", metac_entry_is_pointer(e) != 0, metac_entry_is_void_pointer(e) != 0, metac_entry_is_declaration_pointer(e) != 0);
    int n = metac_entry_element_count(e); printf("arr=%d count=%d ", metac_entry_has_elements(e) != 0, metac_entry_has_elements(e) ? n : n < 0 ? -100 : -200);
    n = metac_entry_enumeration_info_size(e); printf("enum=%d en=", metac_entry_is_enumeration(e) != 0);
    for (int i = 0; i < n; ++i) { struct metac_type_enumerator_info const *x = metac_entry_enumeration_info(e, i); printf("%s:%lld:%s,", x->name, (long long)x->const_value, metac_entry_enumeration_to_name(e, x->const_value)); }
    if (metac_entry_enumeration_info(e, -1) || metac_entry_enumeration_info(e, n) || metac_entry_enumeration_to_name(e, 4711)) printf("BAD");
    n = metac_entry_member_count(e); printf(" agg=%d mc=%d ms=", metac_entry_has_members(e) != 0, n < 0 ? -1 : n);
    for (int i = 0; i < n; ++i) { char *s = metac_entry_name(metac_entry_by_member_id(e, i)); printf("%s:%d,", s ? s : "", s ? (int)metac_entry_member_name_to_id(e, s) : i); }
    struct metac_member_raw_location_info ri; memset(&ri, 0x55, sizeof ri); metac_offset_t a = 91, b = 92, c = 93; rc = metac_entry_member_raw_location_info(e, &ri);
    printf(" memb=%d ", metac_entry_is_member(e) != 0);
    if (!rc) { rc = metac_entry_member_bitfield_offsets(e, &a, &b, &c); printf("raw=%lld,%lld,%lld,%lld,%lld loc=%d,%lld,%lld,%lld ", (long long)ri.byte_offset, ri.p_byte_size ? (long long)*ri.p_byte_size : -1, ri.p_data_bit_offset ? (long long)*ri.p_data_bit_offset : -1,
                ri.p_bit_offset ? (long long)*ri.p_bit_offset : -1, ri.p_bit_size ? (long long)*ri.p_bit_size : -1, rc, (long long)a, (long long)b, (long long)c); }
    else printf("raw=- loc=%s ", metac_entry_member_bitfield_offsets(e, &a, &b, &c) < 0 ? "-" : "?");
    n = metac_entry_parameters_count(e); printf("fn=%d pc=%d ps=", metac_entry_has_parameters(e) != 0, n < 0 ? -1 : n);
    for (int i = 0; i < n; ++i) { metac_entry_t *p = metac_entry_by_paremeter_id(e, i); char *s = metac_entry_name(p); printf("%s%s:%d,", metac_entry_is_unspecified_parameter(p) ? "..." : "", s ? s : "", s ? (int)metac_entry_paremeter_name_to_id(e, s) : i); if (!metac_entry_is_parameter(p)) printf("BAD"); }
    printf(" par=%d un=%d va=%d load=%d hasres=%d ", metac_entry_is_parameter(e) != 0, metac_entry_is_unspecified_parameter(e) != 0, metac_entry_is_va_list_parameter(e) != 0, metac_entry_has_parameter_load(e) != 0, metac_entry_has_result(e) != 0);
    metac_value_t *v = metac_new_value_with_call_result(e);
    if (!v) printf("cr=- "); else {
        char *m = metac_value_addr(v); int z = 1; sz = 0; metac_entry_byte_size(metac_value_entry(v), &sz);
        for (int i = 0; i < (int)sz; ++i) { z &= m[i] == 0; m[i] = 1; }
        printf("cr=%ld,%d,%d ", (long)sz, z, metac_value_entry(v) == metac_entry_result_type(e)); }
    metac_value_with_call_result_delete(v);
}
int main(void) {
    static char line[1 << 20];
    while (fgets(line, sizeof line, stdin)) {
        int k = line[0] == 'K'; tdl_begin(line + 2 * k); metac_entry_t *e = tdl_parse(); char *s; nown = 0; tdl_tok();
        va_begin(0); int lost = 0;
        metac_entry_id_t ids[8]; int ni = 0, fin = 0; metac_entry_t *base = e; /* a run of member moves is also one move */
        while ((s = tdl_tok()) && strcmp(s, "|")) if (!lost) {
            if (*s != 'm' && *s != 'n') ni = 0; else { if (!ni) base = e; fin = s[1] - '0'; ids[ni].i = *s == 'm' ? atoi(s + 2) : 0; ids[ni++].n = *s == 'n' ? s + 2 : 0; }
            e = move(e, s); if (!e) { printf("LOST:%s ", s); lost = 1; } }
        if (!lost && ni > 1 && metac_entry_by_member_ids(base, fin, ids, ni) != e) printf("DIFF:run ");
        if (k) {
            va_done(); va_reset();
            for (int w = 0; w < 3 && !lost; ++w) {
                int had = w == 0 ? e != 0 : w == 1 ? ({ metac_entry_t *r = metac_new_element_count_entry(e, 2); int h = r != 0; metac_entry_delete(r); h; }) : ({ metac_value_t *r = metac_new_value_with_call_result(e); int h = r != 0; metac_value_with_call_result_delete(r); h; });
                for (int from = 0; from < 2; ++from) for (int i = 1, hit = 1; hit; ++i) {
                    if (from) va_begin_from(i); else va_begin(i);
                    const char *o;
                    if (w == 0) { metac_entry_t *r = metac_new_entry(e); hit = va_failed(); o = !r ? "refused" : had && metac_entry_kind(r) == metac_entry_kind(e) ? "done" : "wrong"; metac_entry_delete(r); }
                    else if (w == 1) { metac_entry_t *r = metac_new_element_count_entry(e, 2); hit = va_failed(); o = !r ? "refused" : had && metac_entry_element_count(r) == 2 ? "done" : "wrong"; metac_entry_delete(r); }
                    else { metac_value_t *r = metac_new_value_with_call_result(e); hit = va_failed(); o = !r ? "refused" : had && metac_value_addr(r) && metac_value_entry(r) == metac_entry_result_type(e) ? "done" : "wrong"; metac_value_with_call_result_delete(r); }
                    va_done(); printf("%d %d %s %ld %ld ", hit ? i : 0, from, !had && !strcmp(o, "refused") ? "done" : o, va_live(), va_bad()); va_reset();
                }
            }
            va_begin(0);
            while (tdl_tok());
        } else if (!lost) {
            answers(e); printf("mv=");
            while ((s = tdl_tok())) { int at = nown; metac_entry_t *r = move(e, s); putchar(r ? 'Y' : '-'); drop(at); }
        } else while (tdl_tok());
        drop(0); va_done(); if (!k && (va_live() || va_bad())) printf(" LEAK%ld/%ld", va_live(), va_bad()); va_reset();
        printf("\n"); fflush(stdout); tdl_reset();
    }
}
