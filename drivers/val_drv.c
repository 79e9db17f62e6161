/* Scalar values through reflection. One test per line:
 *   OP V1 [V2] [ARGS]   with  V := TYPE PATH HEX ; PATH := "." | steps like m0 e2
 * Every block is exactly sized (address sanitizer guards its end), 32 guard bytes lie before it. */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
typedef float complex cfloat; typedef double complex cdouble; typedef long double complex cldouble;
typedef struct { metac_entry_t *e; unsigned char *blk, *m; int n; metac_value_t *top, *v; } val_t;
static void val_load(val_t *x) {
    unsigned char tmp[4096];
    x->e = tdl_parse();
    char *path = tdl_tok();
    x->n = tdl_hex(tmp, sizeof tmp);
    x->blk = raw_malloc(32 + x->n); memset(x->blk, 0xC3, 32); x->m = x->blk + 32; memcpy(x->m, tmp, x->n);
    x->v = metac_new_value(x->e, x->m);
    for (char *p = path; *p && *p != '.';) {
        char k = *p++; int id = strtol(p, &p, 10);
        metac_value_t *nv = k == 'm' ? metac_new_value_by_member_id(x->v, id) : metac_new_value_by_element_id(x->v, id);
        metac_value_delete(x->v); x->v = nv;
        if (!nv) { printf("NOVALUE"); return; }
    }
}
static int pad_at(metac_entry_t *e, int i) { /* padding bytes of x87 long doubles */
    char *n = metac_entry_base_type_name(e);
    if (n && (!strcmp(n, "long double") || !strcmp(n, "long complex double"))) return i % 16 >= 10;
    return 0;
}
static void val_dump(val_t *x) {
    int plain = metac_entry_is_base_type(x->e);
    if (plain) for (int i = 0; i < x->n; ++i) if (pad_at(x->e, i)) x->m[i] = 0;
    printf(" "); hexout(x->m, x->n);
    for (int i = 0; i < 32; ++i) if (x->blk[i] != 0xC3) { printf("GUARD"); break; }
}
static void val_drop(val_t *x) { if (x->v) metac_value_delete(x->v); raw_free(x->blk); }
#define ACCS(X) X(char,char) X(unsigned char,uchar) X(short,short) X(unsigned short,ushort) X(int,int) X(unsigned,uint) \
 X(long,long) X(unsigned long,ulong) X(long long,llong) X(unsigned long long,ullong) X(bool,bool) X(float,float) \
 X(double,double) X(long double,ldouble)
static const char *alias(const char *a) { return !strcmp(a, "cfloat") ? "float_complex" : !strcmp(a, "cdouble") ? "double_complex" : !strcmp(a, "cldouble") ? "ldouble_complex" : a; }
static const struct { const char *acc, *name; int enc, size; } BTS[] = {
    {"char", "char", METAC_ENC_signed_char, 1}, {"uchar", "unsigned char", METAC_ENC_unsigned_char, 1}, {"short", "short int", METAC_ENC_signed, 2}, {"ushort", "unsigned short int", METAC_ENC_unsigned, 2},
    {"int", "int", METAC_ENC_signed, 4}, {"uint", "unsigned int", METAC_ENC_unsigned, 4}, {"long", "long int", METAC_ENC_signed, 8}, {"ulong", "unsigned long int", METAC_ENC_unsigned, 8},
    {"llong", "long long int", METAC_ENC_signed, 8}, {"ullong", "unsigned long long int", METAC_ENC_unsigned, 8}, {"bool", "_Bool", METAC_ENC_boolean, 1}, {"float", "float", METAC_ENC_float, 4},
    {"double", "double", METAC_ENC_float, 8}, {"ldouble", "long double", METAC_ENC_float, 16}, {"cfloat", "complex float", METAC_ENC_complex_float, 8},
    {"cdouble", "complex double", METAC_ENC_complex_float, 16}, {"cldouble", "long complex double", METAC_ENC_complex_float, 32}};
/* the check by name, encoding and size agrees with the accessors' own checks and refuses every deviation */
static void checks(metac_value_t *v) {
    for (unsigned i = 0; i < sizeof BTS / sizeof *BTS; ++i)
        for (int d = 0; d < 3; ++d) {
            int enc = d == 1 ? (BTS[i].enc == METAC_ENC_float ? METAC_ENC_signed : METAC_ENC_float) : BTS[i].enc, z = BTS[i].size + (d == 2);
            int r1 = metac_value_check_base_type(v, (metac_name_t)BTS[i].name, enc, z), r2 = metac_entry_check_base_type(metac_value_entry(v), (metac_name_t)BTS[i].name, enc, z);
            if (r1 > 0 || r2 > 0 || !r1 != !r2 || (d && !r1)) printf("?");
            if (!d && !r1) printf(",+%s", BTS[i].acc);
        }
    if (metac_value_check_base_type(NULL, "int", METAC_ENC_signed, 4) == 0) printf("?");
}
static char *text_of(const char *op, metac_value_t *v) { return op[1] == 's' ? metac_value_base_type_string(v) : op[1] == 'e' ? metac_value_enumeration_string(v) : op[1] == 'p' ? metac_value_pointer_string(v) : metac_value_string_ex(v, METAC_WMODE_shallow, 0); }
int main(void) {
    static char line[1 << 20];
    while (fgets(line, sizeof line, stdin)) {
        tdl_begin(line); char *op = tdl_tok(); if (!op) continue;
        val_t a = {0}, b = {0}; int two = 0;
        val_load(&a);
        if (!strcmp(op, "eq") || !strcmp(op, "cp") || !strcmp(op, "eeq") || !strcmp(op, "ecp") || !strcmp(op, "peq") || !strcmp(op, "pcp")) { val_load(&b); two = 1; }
        va_begin(0);
        if (!a.v || (two && !b.v)) printf("NOVALUE");
        else if (!strcmp(op, "is")) {
            printf("S");
#define X(T, N) if (!metac_value_is_##N(a.v) != !metac_entry_is_##N(metac_value_entry(a.v))) printf("!"); if (metac_value_is_##N(a.v)) printf(",%s", #N);
            ACCS(X) 
#undef X
#define X(T, N, L) if (!metac_value_is_##N(a.v) != !metac_entry_is_##N(metac_value_entry(a.v))) printf("!"); if (metac_value_is_##N(a.v)) printf(",%s", L);
            X(cfloat, float_complex, "cfloat") X(cdouble, double_complex, "cdouble") X(cldouble, ldouble_complex, "cldouble")
#undef X
            checks(a.v);
        } else if (!strcmp(op, "rd")) {
            const char *acc = alias(tdl_tok()); int done = 0;
#define X(T, N) if (!strcmp(acc, #N)) { T v; unsigned char z[sizeof v]; memset(&v, 0xE7, sizeof v); memset(z, 0xE7, sizeof z); int rc = metac_value_##N(a.v, &v); \
            if (rc == 0) { if (sizeof v == 16 && !strcmp(#N, "ldouble")) memset((char *)&v + 10, 0, 6); \
                if (!strcmp(#N, "ldouble_complex")) { memset((char *)&v + 10, 0, 6); memset((char *)&v + 26, 0, 6); } printf("V"); hexout(&v, sizeof v); } \
            else { printf("E"); if (memcmp(&v, z, sizeof v)) printf("TOUCHED"); } done = 1; }
            ACCS(X) X(cfloat, float_complex) X(cdouble, double_complex) X(cldouble, ldouble_complex)
#undef X
            if (!done) printf("BADACC");
        } else if (!strcmp(op, "wr")) {
            const char *acc = alias(tdl_tok()); unsigned char w[64] = {0}; tdl_hex(w, 64); int done = 0;
#define X(T, N) if (!strcmp(acc, #N)) { T v; memcpy(&v, w, sizeof v); printf(metac_value_set_##N(a.v, v) == 0 ? "OK" : "E"); done = 1; }
            ACCS(X) X(cfloat, float_complex) X(cdouble, double_complex) X(cldouble, ldouble_complex)
#undef X
            if (!done) printf("BADACC");
        } else if (!strcmp(op, "num")) {
            metac_num_t n = 0x5a5a5a5a; int rc = metac_value_num(a.v, &n); if (rc == 0) printf("N%d", n); else printf("E%s", n == 0x5a5a5a5a ? "" : "TOUCHED");
        } else if (!strcmp(op, "eq")) { int r = metac_value_equal_base_type(a.v, b.v); if (r < 0) printf("E"); else printf("N%d", r); }
        else if (!strcmp(op, "cp")) { metac_value_t *r = metac_value_copy_base_type(a.v, b.v); printf(r == b.v ? "OK" : r == 0 ? "E" : "OTHER"); }
        else if (!strcmp(op, "str")) { char *s = metac_value_base_type_string(a.v); printf("T%s", s ? s : ""); free(s); }
        /* enumerations */
        else if (!strcmp(op, "eis")) printf("N%d", metac_value_is_enumeration(a.v) != 0);
        else if (!strcmp(op, "er")) { metac_const_value_t v = 0x5a5a5a5a; int rc = metac_value_enumeration(a.v, &v); if (rc == 0) { printf("V"); hexout(&v, 8); } else printf("E%s", v == 0x5a5a5a5a ? "" : "TOUCHED"); }
        else if (!strcmp(op, "ew")) { metac_const_value_t v = 0; unsigned char w[8]; tdl_hex(w, 8); memcpy(&v, w, 8); printf(metac_value_set_enumeration(a.v, v) == 0 ? "OK" : "E"); }
        else if (!strcmp(op, "en")) { metac_const_value_t v = 0; unsigned char w[8]; tdl_hex(w, 8); memcpy(&v, w, 8);
            char *s = metac_value_enumeration_to_name(a.v, v), *s2 = metac_entry_enumeration_to_name(metac_value_entry(a.v), v); printf("T%s%s", s ? s : "", s == s2 ? "" : "DIFF"); }
        else if (!strcmp(op, "es")) { char *s = metac_value_enumeration_string(a.v); printf("T%s", s ? s : ""); free(s); }
        else if (!strcmp(op, "el")) { int n = metac_value_enumeration_info_size(a.v); printf("L%d", n);
            for (int i = -1; i <= n; ++i) { const struct metac_type_enumerator_info *p = metac_value_enumeration_info(a.v, i); if (!p) printf(",-"); else { printf(",%s=", p->name); hexout(&p->const_value, 8); } } }
        else if (!strcmp(op, "eeq")) { int r = metac_value_equal_enumeration(a.v, b.v); if (r < 0) printf("E"); else printf("N%d", r); }
        else if (!strcmp(op, "ecp")) { metac_value_t *r = metac_value_copy_enumeration(a.v, b.v); printf(r == b.v ? "OK" : r == 0 ? "E" : "OTHER"); }
        /* pointers */
        else if (!strcmp(op, "pr")) { void *v = (void *)0x5a; int rc = metac_value_pointer(a.v, &v); if (rc == 0) { printf("V"); hexout(&v, 8); } else printf("E%s", v == (void *)0x5a ? "" : "TOUCHED"); }
        else if (!strcmp(op, "pw")) { unsigned char w[8]; void *v; tdl_hex(w, 8); memcpy(&v, w, 8); printf(metac_value_set_pointer(a.v, v) == 0 ? "OK" : "E"); }
        else if (!strcmp(op, "peq")) { int r = metac_value_equal_pointer(a.v, b.v); if (r < 0) printf("E"); else printf("N%d", r); }
        else if (!strcmp(op, "pcp")) { metac_value_t *r = metac_value_copy_pointer(a.v, b.v); printf(r == b.v ? "OK" : r == 0 ? "E" : "OTHER"); }
        else if (!strcmp(op, "ps")) { char *s = metac_value_pointer_string(a.v); printf("T%s", s ? s : ""); free(s); }
        else if (!strcmp(op, "kstr") || !strcmp(op, "kes") || !strcmp(op, "kps") || !strcmp(op, "kval")) { /* texts with allocations failing */
            va_done();
            char *ref = text_of(op, a.v); printf("%s\x01", ref ? ref : "-");
            for (int from = 0; from < 2; ++from) for (int i = 1, hit = 1; hit; ++i) {
                if (from) va_begin_from(i); else va_begin(i);
                char *s = text_of(op, a.v); hit = va_failed();
                char *o = !s ? (ref ? "refused" : "done") : ref && !strcmp(ref, s) ? "done" : "wrong"; free(s); va_done();
                printf("%d %d %s %ld %ld ", hit ? i : 0, from, o, va_live(), va_bad()); va_reset();
            }
            free(ref); printf("\n"); fflush(stdout); val_drop(&a); tdl_reset(); continue;
        }
        else if (!strcmp(op, "strv")) { char *s = metac_value_string_ex(a.v, METAC_WMODE_shallow, 0), *d = metac_value_string_ex(a.v, METAC_WMODE_deep, 0);
            printf("T%s", !s != !d || (s && strcmp(s, d)) ? "DIFF" : s ? s : ""); free(s); free(d); }
        else printf("BADOP");
        va_done(); if (va_live() || va_bad()) printf("LEAK%ld/%ld", va_live(), va_bad()); va_reset();
        val_dump(&a); if (two) val_dump(&b);
        printf("\n"); fflush(stdout);
        val_drop(&a); if (two) val_drop(&b); tdl_reset();
    }
}
