/* what the generated units of spec/Units.tla report */
#include <stddef.h>
#include "metac/reflect.h"
void u_use(const void *p);
void u_find(int loc, const char *name, metac_entry_t *e);
void u_link(int unit, const char *name, metac_entry_t *e, int addr_ok);
void u_db(struct metac_db *db);
void u_fail(const char *what);
#define CKBITS(T, M, off, w) do { T v_; unsigned char *b_ = (unsigned char*)&v_; int n_ = 0, i_; \
    memset(&v_, 0, sizeof(v_)); v_.M = -1; if (v_.M == 0) v_.M = 1; \
    for (i_ = 0; i_ < 8 * (int)sizeof(v_); ++i_) if (b_[i_ / 8] >> (i_ % 8) & 1) { ++n_; if (i_ < (off) || i_ >= (off) + (w)) u_fail(#T "." #M); } \
    if (n_ != (w)) u_fail(#T "." #M); } while(0)
