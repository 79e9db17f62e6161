/* Line-oriented driver for src/iterator.c */
#include "metac/backend/iterator.h"
#include "alloc.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define P(x) ((void*)(intptr_t)(x))
#define I(p) ((long)(intptr_t)(p))
static metac_recursive_iterator_t *it;
static void proj(void) {
    int lv = metac_recursive_iterator_level(it);
    printf(" %d %d %ld %d %d", metac_recursive_iterator_get_state(it), lv, I(metac_recursive_iterator_get_context(it)),
        metac_recursive_iterator_dep_queue_size(it), metac_recursive_iterator_dep_queue_is_empty(it) ? 1 : 0);
    for (int l = 0; l <= lv + 1; l++) printf(" %ld", I(metac_recursive_iterator_get_in(it, l)));
}
int main(void) {
    char line[128], op[32];
    va_begin(0); it = metac_new_recursive_iterator(P(1)); va_done();
    while (fgets(line, sizeof line, stdin)) {
        int x = 0, y = 0; sscanf(line, "%31s %d %d", op, &x, &y);
        void *in = P(-9); int fail = -9;
        va_begin(0);
        if (!strcmp(op, "next")) printf("%ld", I(metac_recursive_iterator_next(it)));
        else if (!strcmp(op, "append")) { va_begin(y); int rc = metac_recursive_iterator_create_and_append_dep(it, P(x)); printf("%d", rc < 0 ? -1 : rc); }
        else if (!strcmp(op, "dequeue")) {      /* what the caller doesn't ask for is not missed */
            static int odd; void *o, *o0 = NULL; odd = !odd;
            if (odd) { o0 = metac_recursive_iterator_get_dep_out(it, 0, &in, &fail); o = metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL); if (o != o0) printf("other "); }
            else o = metac_recursive_iterator_dequeue_and_delete_dep(it, &in, &fail); printf("%ld %ld %d", I(o), I(in), fail); }
        else if (!strcmp(op, "peek")) { void *o = metac_recursive_iterator_get_dep_out(it, x, &in, &fail); if (o != metac_recursive_iterator_get_dep_out(it, x, NULL, NULL)) printf("other "); printf("%ld %ld %d", I(o), I(in), fail); }
        else if (!strcmp(op, "state")) printf("%d", metac_recursive_iterator_set_state(it, x) != NULL);
        else if (!strcmp(op, "ctx")) printf("%ld", I(metac_recursive_iterator_set_context(it, P(x))));
        else if (!strcmp(op, "done")) printf("%d", metac_recursive_iterator_done(it, P(x)) != NULL);
        else if (!strcmp(op, "fail")) printf("%d", metac_recursive_iterator_fail(it) != NULL);
        else if (!strcmp(op, "out")) { void *o = metac_recursive_iterator_get_out(it, &in, &fail); if (o != metac_recursive_iterator_get_out(it, NULL, NULL)) printf("other "); printf("%ld %ld %d", I(o), I(in), fail); }
        else if (!strcmp(op, "restart")) {
            metac_recursive_iterator_free(it); long l = va_live() + va_bad(); va_reset();
            int refused = 0;
            if (y) { va_begin(1); it = metac_new_recursive_iterator(P(x)); va_done(); refused = it == NULL; va_begin(0); }
            it = metac_new_recursive_iterator(P(x)); printf("%ld %d", l, refused);
        }
        va_done();
        proj(); printf("\n"); fflush(stdout);
    }
    return 0;
}
