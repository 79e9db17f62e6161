/* printf-style formats.  Commands:
   P HEXFMT            -> "count" and per % position "pos:ret:flags:width:prec:len:letter:end"
   S GP FP HEXFMT ARG* -> captured arguments; GP/FP: registers already used by named parameters
   K GP FP HEXFMT ARG* -> the same with every allocation denied in turn; "k from outcome live bad" per point
   ARG: iHEX16 (integer or pointer register), dHEX16 (double), LHEX20 (long double), sHEX|s- (string), uHEX (letters without terminator) */
#include "metac/reflect.h"
#include "metac/backend/printf_format.h"
#include "alloc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
METAC_MODULE(drv);
static char *tok(void) { return strtok(NULL, " \n"); }
static char *unhex(const char *h, size_t *n, int term) {
    size_t l = (!strcmp(h, "-")) ? 0 : strlen(h) / 2; char *r = raw_malloc(l + (term ? 1 : 0) + (l + term == 0));
    for (size_t i = 0; i < l; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); r[i] = x; }
    if (term) r[l] = 0;
    if (n) *n = l; return r;
}
static void hexout(const void *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]); }
struct area { uint64_t gp[6]; struct { uint64_t v, pad; } fp[8]; } __attribute__((aligned(16)));
static struct area regs; static uint64_t stack_[512] __attribute__((aligned(16)));
struct vl { unsigned gp_offset, fp_offset; void *overflow, *reg; };
static int gp, fp, st; static void *strs[256]; static int ns;
static void args(int g0, int f0) {
    gp = g0; fp = f0; st = 0; ns = 0; memset(&regs, 0xbd, sizeof regs); memset(stack_, 0xbd, sizeof stack_);
    for (char *t; (t = tok());) {
        uint64_t v = 0;
        if (t[0] == 'L') {
            if (st & 1) st++;
            unsigned char *b = (unsigned char *)&stack_[st]; for (int i = 0; i < 10; i++) { unsigned x; sscanf(t + 1 + 2 * i, "%2x", &x); b[i] = x; }
            st += 2; continue;
        }
        if (t[0] == 's' || t[0] == 'u') { char *p = unhex(t + 1, 0, t[0] == 's'); strs[ns++] = p; v = (uint64_t)p; }
        else v = strtoull(t + 1, 0, 16);
        if (t[0] == 'd') { if (fp < 8) regs.fp[fp++].v = v; else stack_[st++] = v; }
        else { if (gp < 6) regs.gp[gp++] = v; else stack_[st++] = v; }
    }
}
static int store(metac_parameter_storage_t *ps, const char *fmt, int g0, int f0) {
    if (g0 == 2 && f0 == 0 && st <= 64) {       /* a real variadic call: the first two registers hold ps and fmt */
#define G(i) regs.gp[i]
#define DB(i) ((union { uint64_t u; double d; }){.u = regs.fp[i].v}.d)
#define S4(i) stack_[i], stack_[i + 1], stack_[i + 2], stack_[i + 3]
#define S16(i) S4(i), S4(i + 4), S4(i + 8), S4(i + 12)
        return metac_store_printf_params(ps, fmt, G(2), G(3), G(4), G(5), DB(0), DB(1), DB(2), DB(3), DB(4), DB(5), DB(6), DB(7), S16(0), S16(16), S16(32), S16(48));
    }
    va_list l; struct vl *x = (struct vl *)l;
    x->gp_offset = g0 * 8; x->fp_offset = 48 + f0 * 16; x->overflow = stack_; x->reg = &regs;
    return metac_store_vprintf_params(ps, fmt, l);
}
static const char *nsp(metac_name_t n) { static char b[100]; if (!n) return "?"; snprintf(b, sizeof b, "%s", n); for (char *c = b; *c; c++) if (*c == ' ') *c = '~'; return b; }
static void show(metac_parameter_storage_t *ps) {
    metac_num_t n = metac_parameter_storage_size(ps);
    printf(" %d", (int)n);
    metac_entry_t *es[] = {metac_store_printf_params_entry(), metac_store_vprintf_params_entry()};
    for (int k = 0; k < 2; ++k) {       /* the capture as the value of the variadic parameter */
        metac_value_t *pv = es[k] ? metac_new_value(es[k], ps) : NULL;
        if (!pv || !metac_value_has_parameter_load(pv) || metac_value_parameter_count(pv) != n || !(k ? metac_entry_is_va_list_parameter(es[k]) : metac_entry_is_unspecified_parameter(es[k]))) printf(" noparameter");
        else for (metac_num_t i = 0; i < n; i++) {
            metac_value_t *a = metac_value_parameter_new_item(pv, i), *b = metac_parameter_storage_new_param_value(ps, i);
            if (!a || !b || metac_value_addr(a) != metac_value_addr(b) || metac_value_kind(a) != metac_value_kind(b) || metac_value_has_elements(a) != metac_value_has_elements(b)) printf(" otheritem");
            if (a) metac_value_delete(a);
            if (b) metac_value_delete(b);
        }
        if (pv) metac_value_delete(pv);
    }
    for (metac_num_t i = 0; i < n; i++) {
        metac_value_t *v = metac_parameter_storage_new_param_value(ps, i);
        if (!v) { printf(" none"); continue; }
        metac_size_t sz = 0;
        if (metac_value_is_pointer(v)) {
            metac_entry_t *e = metac_entry_pointer_entry(metac_value_entry(v)); metac_name_t nm = e ? metac_entry_base_type_name(e) : 0;
            printf(" P|%s|", e ? (nsp(nm)) : "void"); hexout(metac_value_addr(v), 8);
        } else if (metac_value_has_elements(v)) {
            metac_entry_t *e = metac_entry_element_entry(metac_value_entry(v)); metac_name_t nm = e ? metac_entry_base_type_name(e) : 0;
            printf(" A|%s|%d|", nsp(nm), (int)metac_value_element_count(v)); hexout(metac_value_addr(v), metac_value_element_count(v));
        } else {
            metac_name_t nm = metac_entry_base_type_name(metac_value_entry(v)); metac_entry_byte_size(metac_value_entry(v), &sz);
            printf(" B|%s|%d|", nsp(nm), (int)sz); hexout(metac_value_addr(v), sz);
        }
        metac_value_delete(v);
    }
}
int main(void) {
    static char line[1 << 20];
    while (fgets(line, sizeof line, stdin)) {
        char *t = strtok(line, " \n"); if (!t) { puts(""); continue; }
        if (t[0] == 'P') {
            size_t n; char *f = unhex(tok(), &n, 1);
            printf("%d", (int)metac_count_format_specifiers(f));
            for (size_t i = 0; i < n; i++) if (f[i] == '%') {
                metac_printf_specifier_t sp; memset(&sp, 0x5a, sizeof sp); size_t pos = i;
                size_t r = metac_parse_format_specifier(f, &pos, &sp);
                if (!r) printf(" %d:0", (int)i);
                else printf(" %d:1:%s%s%s%s%s:%d:%d:%d:%c:%d", (int)i, sp.flags.plus ? "+" : "", sp.flags.minus ? "-" : "", sp.flags.pound ? "#" : "", sp.flags.oct ? "0" : "", sp.flags.space ? "s" : "",
                    (int)sp.format_len, (int)sp.precision, (int)sp.arg_len, sp.t, (int)pos);
                if (pos > n) printf(" beyond");
            }
            raw_free(f);
        } else {
            int k = t[0] == 'K'; int g0 = atoi(tok()), f0 = atoi(tok()); char *f = unhex(tok(), 0, 1);
            args(g0, f0);
            if (!k) {
                va_begin(0);
                metac_parameter_storage_t *ps = metac_new_parameter_storage(); int r = store(ps, f, g0, f0); va_done();
                printf("%s", r == 0 ? "ok" : "refused");
                for (int i = 0; i < ns; i++) { raw_free(strs[i]); } ns = 0;      /* what was captured does not depend on the caller's memory */
                va_begin(0);
                if (r == 0) show(ps);
                metac_parameter_storage_delete(ps); va_done();
                printf(" %ld %ld", va_live(), va_bad()); va_reset();
            } else for (int from = 0; from < 2; from++) for (int i = 1; ; i++) {
                if (from) va_begin_from(i); else va_begin(i);
                metac_parameter_storage_t *ps = metac_new_parameter_storage(); int r = ps ? store(ps, f, g0, f0) : -1;
                int hit = va_failed(); va_done();
                va_begin(0); if (ps) metac_parameter_storage_delete(ps); va_done();
                printf("%d %d %s %ld %ld ", hit ? i : 0, from, r == 0 ? "done" : "refused", va_live(), va_bad()); va_reset();
                if (!hit) break;
            }
            for (int i = 0; i < ns; i++) raw_free(strs[i]); ns = 0; raw_free(f);
        }
        printf("\n"); fflush(stdout);
    }
    return 0;
}
