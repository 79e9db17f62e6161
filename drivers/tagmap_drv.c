/* Annotation maps.  Ten fixed entities; every tag owns a data block whose release is counted.
 *  cfg M DEF n (MASK EXT)..   configuration of map M          -> "."
 *  new M FAULT                                               -> ok|err REL..
 *  set M CAT OBJ OVERRIDE OP TAG FAULT                       -> ok|already|inval|err REL..
 *  get M OBJ                                                 -> tag number, 0 none
 *  del M                                                     -> ok REL..
 * REL: number of releases of each tag's data since the last command.  A trailing LEAK: a block left after the last map went. */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#define NT 5
static int rel[NT + 1], handed;
static metac_tag_map_t *map[8]; static metac_tag_map_entry_t cfg[8][4]; static int ext[8][4], nc[8], def[8], nlive;
static metac_entry_t *obj[11];
struct data { int t; };
static void drop(void *p) { struct data *d = p; rel[d->t]++; d->t = -1; raw_free(d); --handed; }
static int h1(metac_value_walker_hierarchy_t *h, metac_value_event_t *e, void *c) { return 0; }
static int h2(metac_value_walker_hierarchy_t *h, metac_value_event_t *e, void *c) { return 0; }
static struct data fixed;
/* 1: string+data+handler  2: data+handler  3: string only  4: string, data never released  5: nothing but a handler function and data */
static void mk(metac_entry_tag_t *t, int n, char *buf) {
    memset(t, 0, sizeof *t);
    if (n == 1 || n == 3 || n == 4) { sprintf(buf, "tag:\"%d\"", n); t->p_tagstring = buf; }
    t->handler = n % 2 ? h1 : h2;
    if (n == 1 || n == 2 || n == 5) { struct data *d = raw_malloc(sizeof *d); d->t = n; t->p_context = d; t->context_free_handler = drop; ++handed; }
    if (n == 4) { fixed.t = 4; t->p_context = &fixed; }
}
static void unmk(metac_entry_tag_t *t, int n) { if (n == 1 || n == 2 || n == 5) { raw_free(t->p_context); --handed; } }
static int id(metac_entry_tag_t *t) {
    if (!t) return 0;
    int s = 0, c = 0;
    if (t->p_tagstring) s = atoi(t->p_tagstring + 5);
    if (t->p_context) c = ((struct data *)t->p_context)->t;
    if (s && c && s != c) return -1;
    int n = s ? s : c; if (t->handler != (n % 2 ? h1 : h2)) return -2;
    if ((n == 1 || n == 3 || n == 4) != (s != 0) || (n != 3) != (c != 0)) return -3;
    return n;
}
static void rels(void) { for (int i = 1; i <= NT; ++i) { printf(" %d", rel[i]); rel[i] = 0; } if (va_bad()) printf(" BAD"); if (!nlive && (va_live() || handed)) printf(" LEAK%ld/%d", va_live(), handed); }
int main(void) {
    static char line[1 << 20], env[] = "g fn v 4 q p1 @F2 s s1 16 2 m m1 0 c @F1 p b char 6 1 m m2 8 p *F2 d q p2 @TD t td *F1 q pv @TV t tv v";
    /* entities */
    tdl_begin(env); metac_entry_t *fn = tdl_parse();
    metac_entry_t *P = fn->subprogram_info.parameters, *F2 = P[0].func_parameter_info.type, *m1 = &F2->structure_type_info.members[0], *F1 = m1->member_info.type->qual_type_info.type;
    static metac_entry_t x1, x2, xv;
    x1.kind = x2.kind = xv.kind = METAC_KND_variable; x1.name = "x1"; x2.name = "x2"; xv.name = "xv"; x1.variable_info.type = F1; x2.variable_info.type = P[2].func_parameter_info.type; xv.variable_info.type = P[3].func_parameter_info.type;
    static metac_entry_t m2; m2 = F2->structure_type_info.members[1]; m2.member_info.type = F2;
    obj[1] = &x1; obj[2] = &x2; obj[3] = m1; obj[4] = &m2; obj[5] = &P[0]; obj[6] = F1; obj[7] = F2; obj[8] = P[2].func_parameter_info.type; obj[9] = &P[1]; obj[10] = &xv;
    while (fgets(line, sizeof line, stdin)) {
        tdl_begin(line); char *op = tdl_tok(); char buf[64]; metac_entry_tag_t t;
        if (!strcmp(op, "cfg")) { int m = tdl_num(); def[m] = tdl_num(); nc[m] = tdl_num(); for (int i = 0; i < nc[m]; ++i) { cfg[m][i].mask = tdl_num(); ext[m][i] = tdl_num(); } printf("."); }
        else if (!strcmp(op, "new")) {
            int m = tdl_num(), f = tdl_num(); for (int i = 0; i < nc[m]; ++i) cfg[m][i].p_ext_map = ext[m][i] ? map[ext[m][i]] : 0;
            if (def[m]) mk(&t, def[m], buf);
            va_begin(f);
            int simple = nc[m] == 1 && cfg[m][0].mask == 7 && !ext[m][0];
            map[m] = simple ? metac_new_tag_map(def[m] ? &t : 0) : metac_new_tag_map_ex(nc[m], cfg[m], def[m] ? &t : 0);
            va_done();
            if (!map[m] && def[m]) unmk(&t, def[m]);
            memset(&t, 0x5a, sizeof t); memset(buf, 0x5a, 60); if (map[m]) ++nlive; printf("%s", map[m] ? "ok" : "err"); rels();
        }
        else if (!strcmp(op, "set")) {
            int m = tdl_num(), c = tdl_num() - 1, o = tdl_num(), ov = tdl_num(), x = tdl_num(), n = tdl_num(), f = tdl_num(); mk(&t, n, buf);
            va_begin(f); int r = metac_tag_map_set_tag(map[m], c, ov, obj[o], x == 1 ? METAC_TEO_entry : x == 2 ? METAC_TEO_final_entry : 77, &t); va_done();
            if (r || (x != 1 && x != 2)) unmk(&t, n);
            memset(&t, 0x5a, sizeof t); memset(buf, 0x5a, 60);
            printf("%s", r == 0 ? "ok" : r == -EALREADY ? "already" : r == -EINVAL ? "inval" : "err"); rels();
        }
        else if (!strcmp(op, "get")) { int m = tdl_num(), o = tdl_num(); va_begin(0); int a = id(metac_tag_map_tag(map[m], obj[o])); va_done(); printf("%d", a); rels(); }
        else if (!strcmp(op, "del")) { int m = tdl_num(); va_begin(0); metac_tag_map_delete(map[m]); va_done(); map[m] = 0; --nlive; printf("ok"); rels(); }
        printf("\n"); fflush(stdout);
    }
    return 0;
}
