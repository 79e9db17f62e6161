/* Type description language: builds metac entries from a token stream.
 *  T := b NAME ENC SIZE | v | p T | a N T | c T | V T | r T | t NAME T
 *     | s NAME SIZE n M.. | u NAME SIZE n M.. | S NAME | U NAME | e NAME SIZE n (NAME VAL)..
 *     | f T n P.. | g NAME T n P.. | x NAME T | P | M
 *  P := q NAME T | d
 *  M := m NAME OFF T | m4 NAME OFF DBO BITS T | m3 NAME OFF BYTES BITOFF BITS T
 *  @LABEL T labels the entry, *LABEL refers to it (may be forward inside the same top-level type).
 *  NAME: "-" is no name; '~' stands for a space. */
#ifndef TDL_H
#define TDL_H
#include "metac/reflect.h"
#include "metac/backend/entry.h"
metac_entry_t *tdl_parse(void);           /* from the current strtok stream */
void tdl_begin(char *line);               /* starts a token stream */
char *tdl_tok(void);
void tdl_back(char *t);                   /* pushes one token back */
char *tdl_rest(void);
long long tdl_num(void);
int tdl_hex(unsigned char *out, int cap); /* one token of hex bytes ("-" = none) */
void tdl_reset(void);                     /* releases everything built */
void *tdl_mem(size_t n);                  /* arena memory */
void hexout(const void *p, size_t n);
metac_entry_t *tdl_label(const char *n);
#endif
