#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
static char *cur, *pushed;
static void *arena[65536]; static int na;
static struct { char n[16]; metac_entry_t *e; } lab[64]; static int nl;
static struct { char n[16]; metac_entry_t **slot; } fix[256]; static int nf;
void *tdl_mem(size_t n) { if (na >= 65536) abort(); return arena[na++] = raw_calloc(1, n ? n : 1); }
void tdl_reset(void) { while (na) raw_free(arena[--na]); nl = nf = 0; }
void tdl_begin(char *l) { cur = l; pushed = 0; }
char *tdl_tok(void) {
    if (pushed) { char *t = pushed; pushed = 0; return t; }
    while (*cur == ' ') ++cur;
    if (!*cur || *cur == '\n') return 0;
    char *t = cur; while (*cur && *cur != ' ' && *cur != '\n') ++cur;
    if (*cur) *cur++ = 0;
    return t;
}
void tdl_back(char *t) { pushed = t; }
char *tdl_rest(void) { while (*cur == ' ') ++cur; return cur; }
static char *need(void) { char *t = tdl_tok(); if (!t) { fprintf(stderr, "tdl: token expected\n"); exit(3); } return t; }
long long tdl_num(void) { return strtoll(need(), 0, 0); }
static unsigned long long unum(void) { return strtoull(need(), 0, 0); }
static char *name(void) {
    char *t = need(); if (!strcmp(t, "-")) return 0;
    char *r = tdl_mem(strlen(t) + 1); strcpy(r, t);
    for (char *p = r; *p; ++p) if (*p == '~') *p = ' ';
    return r;
}
int tdl_hex(unsigned char *o, int cap) {
    char *t = need(); int n = 0; if (!strcmp(t, "-")) return 0;
    for (; t[0] && t[1] && n < cap; t += 2) { char b[3] = {t[0], t[1], 0}; o[n++] = strtol(b, 0, 16); }
    return n;
}
void hexout(const void *p, size_t n) { if (!n) { printf("-"); return; } for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char *)p)[i]); }
static void into(metac_entry_t *e);
static void type_into(metac_entry_t **slot) {
    char *t = need();
    if (!strcmp(t, "v")) { *slot = 0; return; }
    if (t[0] == '*' && t[1]) { strncpy(fix[nf].n, t + 1, 15); fix[nf++].slot = slot; return; }
    if (t[0] == '@') {
        metac_entry_t *e = tdl_mem(sizeof *e); strncpy(lab[nl].n, t + 1, 15); lab[nl++].e = e;
        into(e); *slot = e; return;
    }
    tdl_back(t);
    metac_entry_t *e = tdl_mem(sizeof *e); into(e); *slot = e;
}
static metac_size_t *box(unsigned long long v) { metac_size_t *p = tdl_mem(sizeof *p); *p = v; return p; }
static metac_flag_t noarg(struct va_list_container *c, void *b) { return 0; }
static void into(metac_entry_t *e) {
    char *t = need();
    if (!strcmp(t, "b")) { e->kind = METAC_KND_base_type; e->name = name(); e->base_type_info.encoding = tdl_num(); e->base_type_info.byte_size = tdl_num(); }
    else if (!strcmp(t, "p")) { e->kind = METAC_KND_pointer_type; e->pointer_type_info.byte_size = sizeof(void *); type_into(&e->pointer_type_info.type); }
    else if (!strcmp(t, "a")) { e->kind = METAC_KND_array_type; e->array_type_info.count = tdl_num(); type_into(&e->array_type_info.type); }
    else if (!strcmp(t, "c")) { e->kind = METAC_KND_const_type; type_into(&e->qual_type_info.type); }
    else if (!strcmp(t, "V")) { e->kind = METAC_KND_volatile_type; type_into(&e->qual_type_info.type); }
    else if (!strcmp(t, "r")) { e->kind = METAC_KND_restrict_type; type_into(&e->qual_type_info.type); }
    else if (!strcmp(t, "t")) { e->kind = METAC_KND_typedef; e->name = name(); type_into(&e->typedef_info.type); }
    else if (!strcmp(t, "x")) { e->kind = METAC_KND_variable; e->name = name(); type_into(&e->variable_info.type); }
    else if (!strcmp(t, "s") || !strcmp(t, "u")) {
        e->kind = *t == 's' ? METAC_KND_struct_type : METAC_KND_union_type; e->name = name();
        e->structure_type_info.byte_size = tdl_num();
        int n = e->structure_type_info.members_count = tdl_num();
        metac_entry_t *m = e->structure_type_info.members = tdl_mem(sizeof(*e) * n);
        metac_entry_t **par = tdl_mem(sizeof *par); par[0] = e;
        for (int i = 0; i < n; ++i) { into(&m[i]); m[i].parents_count = 1; m[i].parents = par; }
    }
    else if (!strcmp(t, "S") || !strcmp(t, "U")) { e->kind = *t == 'S' ? METAC_KND_struct_type : METAC_KND_union_type; e->name = name(); e->declaration = 1; }
    else if (!strcmp(t, "e")) {
        e->kind = METAC_KND_enumeration_type; e->name = name(); e->enumeration_type_info.byte_size = tdl_num();
        int n = e->enumeration_type_info.enumerators_count = tdl_num();
        e->enumeration_type_info.enumerators = tdl_mem(sizeof(struct metac_type_enumerator_info) * n);
        for (int i = 0; i < n; ++i) { e->enumeration_type_info.enumerators[i].name = name(); char *v = need();
            e->enumeration_type_info.enumerators[i].const_value = *v == '-' ? strtoll(v, 0, 0) : (long long)strtoull(v, 0, 0); }
    }
    else if (!strcmp(t, "f")) {
        e->kind = METAC_KND_subroutine_type; type_into(&e->subroutine_type_info.type);
        int n = e->subroutine_type_info.parameters_count = tdl_num();
        metac_entry_t *m = e->subroutine_type_info.parameters = tdl_mem(sizeof(*e) * n);
        for (int i = 0; i < n; ++i) into(&m[i]);
    }
    else if (!strcmp(t, "g")) {
        e->kind = METAC_KND_subprogram; e->name = name(); type_into(&e->subprogram_info.type);
        int n = e->subprogram_info.parameters_count = tdl_num();
        metac_entry_t *m = e->subprogram_info.parameters = tdl_mem(sizeof(*e) * n);
        for (int i = 0; i < n; ++i) into(&m[i]);
    }
    else if (!strcmp(t, "q")) { e->kind = METAC_KND_func_parameter; e->name = name(); type_into(&e->func_parameter_info.type); }
    else if (!strcmp(t, "d")) { e->kind = METAC_KND_func_parameter; e->func_parameter_info.unspecified_parameters = 1; }
    else if (t[0] == 'm') {
        e->kind = METAC_KND_member; e->name = name(); e->member_info.byte_offset = unum();
        if (t[1] == '4') { e->member_info.p_data_bit_offset = box(unum()); e->member_info.p_bit_size = box(unum()); }
        else if (t[1] == '3') { e->member_info.p_byte_size = box(unum()); e->member_info.p_bit_offset = box(unum()); e->member_info.p_bit_size = box(unum()); }
        type_into(&e->member_info.type);
    }
    else { fprintf(stderr, "tdl: unknown token '%s'\n", t); exit(3); }
}
metac_entry_t *tdl_parse(void) {
    metac_entry_t *e; type_into(&e);
    for (int i = 0; i < nf; ++i) { int j; for (j = nl - 1; j >= 0 && strcmp(lab[j].n, fix[i].n); --j);
        if (j < 0) { fprintf(stderr, "tdl: no label %s\n", fix[i].n); exit(3); } *fix[i].slot = lab[j].e; }
    nf = 0;
    return e;
}
metac_entry_t *tdl_label(const char *n) { for (int j = nl - 1; j >= 0; --j) if (!strcmp(lab[j].n, n)) return lab[j].e; fprintf(stderr, "tdl: no label %s\n", n); exit(3); }
