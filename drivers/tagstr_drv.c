/* "HEXSTRING HEXKEY" ('-' empty, '0' NULL) -> "=HEX", "none", with " LEAK" if a block besides the answer is left */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
static char *str(void) {
    char *t = tdl_tok(); if (!strcmp(t, "0")) return 0;
    if (!strcmp(t, "-")) return raw_calloc(1, 1);
    tdl_back(t); size_t n = strlen(t) / 2; char *r = raw_malloc(n + 1); tdl_hex((unsigned char *)r, n); r[n] = 0; return r;
}
int main(void) {
    static char line[1 << 20];
    while (fgets(line, sizeof line, stdin)) {
        int kf = line[0] == 'K'; tdl_begin(line + 2 * kf); metac_entry_tag_t tag = {0}; tag.p_tagstring = str(); char *k = str();
        char *c = tag.p_tagstring ? strcpy(raw_malloc(strlen(tag.p_tagstring) + 1), tag.p_tagstring) : 0;
        if (kf) { /* with allocations failing */
            char *ref = (char *)metac_entry_tag_string_lookup(&tag, k); printf("%s\x01", ref ? "=" : "none");
            for (int from = 0; from < 2; ++from) for (int i = 1, hit = 1; hit; ++i) {
                if (from) va_begin_from(i); else va_begin(i);
                char *s = (char *)metac_entry_tag_string_lookup(&tag, k); hit = va_failed();
                char *o = !s ? (ref ? "refused" : "done") : ref && !strcmp(ref, s) ? "done" : "wrong"; free(s); va_done();
                printf("%d %d %s %ld %ld ", hit ? i : 0, from, o, va_live(), va_bad()); va_reset();
            }
            free(ref); printf("\n"); fflush(stdout); raw_free(c); raw_free(tag.p_tagstring); raw_free(k); continue;
        }
        va_begin(0);
        char *r = (char *)metac_entry_tag_string_lookup(&tag, k);
        long l = va_live() - (r ? 1 : 0);
        if (r) { putchar('='); hexout(r, strlen(r)); if (va_is_live(r)) free(r); else l = 9; } else printf("none");
        va_done();
        if (l || va_bad() || (c && strcmp(c, tag.p_tagstring))) printf(" LEAK");
        va_reset(); printf("\n"); fflush(stdout); raw_free(c); raw_free(tag.p_tagstring); raw_free(k);
    }
    return 0;
}
