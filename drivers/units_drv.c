/* Runs the units of a program of spec/Units.tla and prints the whole graph of
 * reflection data reachable from its DB, locations and links as JSON lines. */
#include "metac/backend/entry.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "units_drv.h"

static metac_entry_t **ids; static int nids, cids;
static int id_of(metac_entry_t *e) {
    if (!e) return 0;
    for (int i = nids - 1; i >= 0; --i) if (ids[i] == e) return i + 1;
    if (nids == cids) ids = realloc(ids, sizeof(*ids) * (cids = cids * 2 + 256));
    ids[nids++] = e;
    return nids;
}
static void str(const char *s) {
    if (!s) { printf("null"); return; }
    putchar('"');
    for (; *s; ++s) if (*s == '"' || *s == '\\' || (unsigned char)*s < 32) printf("\\u%04x", (unsigned char)*s); else putchar(*s);
    putchar('"');
}
void u_use(const void *p) { static const void * volatile sink; sink = p; }
void u_find(int loc, const char *name, metac_entry_t *e) { printf("{\"find\":%d,\"name\":\"%s\",\"e\":%d}\n", loc, name, id_of(e)); }
void u_link(int unit, const char *name, metac_entry_t *e, int ok) { printf("{\"unit\":%d,\"link\":\"%s\",\"e\":%d,\"ok\":%d}\n", unit, name, id_of(e), ok); }
void u_fail(const char *w) { printf("{\"model\":\"%s\"}\n", w); }

static void opt(const char *k, void *p, int off) { if (p) printf(",\"%s\":%lld", k, off ? (long long)*(metac_offset_t*)p : (long long)*(metac_size_t*)p); }
static void hier(metac_num_t n, struct hierarchy_item *h) {
    printf(",\"h\":[");
    for (int i = 0; i < n; ++i) {
        printf("%s{\"e\":%d", i ? "," : "", id_of(h[i].link));
        opt("file", h[i].p_decl_file, 0); opt("line", h[i].p_decl_line, 0); opt("col", h[i].p_decl_column, 0);
        putchar('}');
    }
    putchar(']');
}
static void params(metac_entry_t *e, metac_num_t n, metac_entry_t *p) {
    printf(",\"ps\":[");
    for (int i = 0; i < n; ++i) {
        printf("%s{\"k\":%d,\"n\":", i ? "," : "", p[i].kind); str(p[i].name);
        printf(",\"up\":%d,\"x\":%d,\"t\":%d}", p[i].parents_count == 1 && p[i].parents[0] == e, p[i].func_parameter_info.unspecified_parameters, id_of(p[i].func_parameter_info.type));
    }
    putchar(']');
}
static void one(int i) {
    metac_entry_t *e = ids[i];
    printf("{\"id\":%d,\"k\":%d,\"n\":", i + 1, e->kind); str(e->name);
    printf(",\"d\":%d,\"par\":[", e->declaration);
    for (int j = 0; j < e->parents_count; ++j) printf("%s%d", j ? "," : "", id_of(e->parents[j]));
    putchar(']');
    switch (e->kind) {
    case METAC_KND_typedef: printf(",\"t\":%d", id_of(e->typedef_info.type)); break;
    case METAC_KND_base_type: printf(",\"z\":%lld,\"enc\":%d", (long long)e->base_type_info.byte_size, e->base_type_info.encoding); break;
    case METAC_KND_pointer_type: printf(",\"z\":%lld,\"t\":%d", (long long)e->pointer_type_info.byte_size, id_of(e->pointer_type_info.type)); break;
    case METAC_KND_enumeration_type:
        printf(",\"z\":%lld,\"v\":[", (long long)e->enumeration_type_info.byte_size);
        for (int j = 0; j < e->enumeration_type_info.enumerators_count; ++j) {
            printf("%s[", j ? "," : ""); str(e->enumeration_type_info.enumerators[j].name); printf(",%lld]", (long long)e->enumeration_type_info.enumerators[j].const_value);
        }
        putchar(']'); break;
    case METAC_KND_subroutine_type: printf(",\"t\":%d", id_of(e->subroutine_type_info.type)); params(e, e->subroutine_type_info.parameters_count, e->subroutine_type_info.parameters); break;
    case METAC_KND_array_type: printf(",\"t\":%d,\"c\":%lld,\"lb\":%lld", id_of(e->array_type_info.type), (long long)e->array_type_info.count, (long long)e->array_type_info.lower_bound); break;
    case METAC_KND_const_type: case METAC_KND_volatile_type: case METAC_KND_restrict_type: case METAC_KND_mutable_type: case METAC_KND_shared_type: case METAC_KND_packed_type:
        printf(",\"t\":%d", id_of(e->qual_type_info.type)); break;
    case METAC_KND_struct_type: case METAC_KND_union_type: case METAC_KND_class_type:
        printf(",\"z\":%lld", (long long)e->structure_type_info.byte_size); opt("al", e->structure_type_info.p_alignment, 0);
        printf(",\"m\":[");
        for (int j = 0; j < e->structure_type_info.members_count; ++j) {
            metac_entry_t *m = &e->structure_type_info.members[j];
            printf("%s{\"k\":%d,\"n\":", j ? "," : "", m->kind); str(m->name);
            printf(",\"up\":%d,\"t\":%d,\"o\":%lld", m->parents_count == 1 && m->parents[0] == e, id_of(m->member_info.type), (long long)m->member_info.byte_offset);
            opt("z", m->member_info.p_byte_size, 0); opt("al", m->member_info.p_alignment, 0); opt("dbo", m->member_info.p_data_bit_offset, 1); opt("bo", m->member_info.p_bit_offset, 1); opt("bs", m->member_info.p_bit_size, 0);
            putchar('}');
        }
        putchar(']'); hier(e->structure_type_info.hierarchy_items_count, e->structure_type_info.hierarchy_items); break;
    case METAC_KND_variable: printf(",\"t\":%d,\"x\":%d", id_of(e->variable_info.type), e->variable_info.linkage_info.external); break;
    case METAC_KND_subprogram:
        printf(",\"t\":%d,\"x\":%d", id_of(e->subprogram_info.type), e->subprogram_info.linkage_info.external);
        params(e, e->subprogram_info.parameters_count, e->subprogram_info.parameters); hier(e->subprogram_info.hierarchy_items_count, e->subprogram_info.hierarchy_items); break;
    case METAC_KND_lex_block: hier(e->lex_block_info.hierarchy_items_count, e->lex_block_info.hierarchy_items); break;
    case METAC_KND_compile_unit:
        printf(",\"lang\":%d,\"files\":[", e->compile_unit_info.lang);
        for (int j = 0; j < e->compile_unit_info.decl_files_count; ++j) { if (j) putchar(','); str(e->compile_unit_info.decl_files[j]); }
        putchar(']'); hier(e->compile_unit_info.hierarchy_items_count, e->compile_unit_info.hierarchy_items); break;
    }
    printf("}\n");
}
static void list(const char *k, struct name_to_entries *l) {
    printf("{\"db\":\"%s\",\"items\":[", k);
    for (int i = 0; i < l->items_count; ++i) {
        printf("%s[", i ? "," : ""); str(l->items[i].name); printf(",[");
        for (int j = 0; j < l->items[i].entries_count; ++j) printf("%s%d", j ? "," : "", id_of(l->items[i].entries[j]));
        printf("]]");
    }
    printf("]}\n");
}
struct metac_db *get_db(void);
static int same(struct name_to_entries *a, struct name_to_entries *b) {
    if (a->items_count != b->items_count) return 0;
    for (int i = 0; i < a->items_count; ++i) {
        if (strcmp(a->items[i].name, b->items[i].name) || a->items[i].entries_count != b->items[i].entries_count) return 0;
        for (int j = 0; j < a->items[i].entries_count; ++j) if (a->items[i].entries[j] != b->items[i].entries[j]) return 0;
    }
    return 1;
}
/* the list of everything, as each module gets it */
void u_db(struct metac_db *db) {
    struct metac_db *o = get_db();
    if (!db) { printf("{\"nodb\":1}\n"); return; }
    if (!o) return;
#define S(x) && same(&o->db_v0.x, &db->db_v0.x)
    if (!(o->version == db->version S(base_types) S(enums) S(typedefs) S(structs) S(unions) S(classes) S(namespaces) S(variables) S(subprograms) S(compile_units))) printf("{\"otherdb\":1}\n");
}
void run_all(void);
int main(void) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    run_all();
    struct metac_db *db = get_db();
    if (!db) { printf("{\"nodb\":1}\n"); return 0; }
    printf("{\"version\":%d}\n", db->version);
#define L(x) list(#x, &db->db_v0.x)
    L(base_types); L(enums); L(typedefs); L(structs); L(unions); L(classes); L(namespaces); L(variables); L(subprograms); L(compile_units);
    for (int i = 0; i < nids; ++i) one(i);
    return 0;
}
