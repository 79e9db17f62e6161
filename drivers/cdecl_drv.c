/* Declaration text: "DECL" -> the text, or "-" when there is none.
 * "K DECL" -> the text and, after \x01, one record per failed allocation: index, later ones too?, refused|done|wrong, blocks kept, bad releases */
#include "tdl.h"
#include "alloc.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
int main(void) {
    static char line[1 << 20];
    while (fgets(line, sizeof line, stdin)) {
        int k = line[0] == 'K'; tdl_begin(line + 2 * k); metac_entry_t *e = tdl_parse();
        if (k) {
            char *ref = metac_entry_cdecl(e); printf("%s\x01", ref ? ref : "-");
            for (int from = 0; from < 2; ++from) for (int i = 1, hit = 1; hit; ++i) {
                if (from) va_begin_from(i); else va_begin(i);
                char *s = metac_entry_cdecl(e); hit = va_failed();
                char *o = !s ? "refused" : ref && !strcmp(ref, s) ? "done" : "wrong"; free(s); va_done();
                printf("%d %d %s %ld %ld ", hit ? i : 0, from, o, va_live(), va_bad()); va_reset();
            }
            free(ref); printf("\n"); fflush(stdout); tdl_reset(); continue;
        }
        va_begin(0);
        char *s = metac_entry_cdecl(e);
        printf("%s", s ? s : "-"); free(s);
        va_done();
        printf("%s\n", va_live() || va_bad() ? " LEAK" : ""); va_reset(); fflush(stdout); tdl_reset();
    }
    return 0;
}
