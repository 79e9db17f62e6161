/* lookups in location tables given on stdin.
   line: nfiles { file nlocs { loc nnames { name count number } } } ; queries: "? file loc name" (names as x<hex>)
   "." ends the table of a line; every answer: number of the entry found or 0, "?" if it is another pointer */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "metac/backend/entry.h"
static char ids[4096];
static char *str(void) {
    char b[512]; size_t i, n;
    if (scanf("%511s", b) != 1) exit(0);
    if (!strcmp(b, "NULL")) return NULL;
    n = (strlen(b) - 1) / 2;
    char *r = malloc(n + 1);
    for (i = 0; i < n; ++i) { unsigned x; sscanf(b + 1 + 2 * i, "%2x", &x); r[i] = (char)x; }
    r[n] = 0;
    return r;
}
static int num(void) { int x; if (scanf("%d", &x) != 1) exit(0); return x; }
/* exact size, so that the sanitizer sees every step beyond the table */
static void *tab(int n, size_t z) { return n ? calloc(n, z) : NULL; }
int main(void) {
    struct metac_entry_db *db = NULL;
    char c[4];
    while (scanf("%3s", c) == 1) {
        if (c[0] == 'd') {
            int i, j, k, m;
            db = malloc(sizeof(*db));
            db->per_file_item_count = num();
            db->per_file_items = tab(db->per_file_item_count, sizeof(*db->per_file_items));
            for (i = 0; i < db->per_file_item_count; ++i) {
                struct metac_per_file_item *f = &db->per_file_items[i];
                f->file = str(); f->per_loc_item_count = num(); f->per_loc_items = tab(f->per_loc_item_count, sizeof(*f->per_loc_items));
                for (j = 0; j < f->per_loc_item_count; ++j) {
                    struct metac_per_loc_item *l = &f->per_loc_items[j];
                    char *s = str();
                    memcpy((void*)&l->loc_name, &s, sizeof(s));
                    l->per_name_item_count = num(); l->per_name_items = tab(l->per_name_item_count, sizeof(*l->per_name_items));
                    for (k = 0; k < l->per_name_item_count; ++k) {
                        struct metac_per_name_item *n = &l->per_name_items[k];
                        int x;
                        n->name = str(); n->entry_count = num(); x = num();
                        n->pp_entries = tab(n->entry_count, sizeof(*n->pp_entries));
                        for (m = 0; m < n->entry_count; ++m) n->pp_entries[m] = (metac_entry_t*)&ids[x + m];
                    }
                }
            }
        } else if (c[0] == '?') {
            char *f = str(), *l = str(), *n = str();
            struct metac_decl_loc loc = {.file = f, .name = l};
            char *e = (char*)metac_entry_from_entry_db(db, &loc, n);
            printf("%ld\n", e ? (long)(e - ids) : 0L);
            free(f); free(l); free(n);
        } else if (c[0] == 'n') {      /* nothing there: every argument missing once */
            char *l = str(), *n = str();
            struct metac_decl_loc loc = {.file = "a", .name = l}, none = {.file = "a", .name = NULL};
            printf("%d\n", metac_entry_from_entry_db(NULL, &loc, n) == NULL && metac_entry_from_entry_db(db, NULL, n) == NULL &&
                   metac_entry_from_entry_db(db, &none, n) == NULL && metac_entry_from_entry_db(db, &loc, NULL) == NULL);
        }
    }
    return 0;
}
