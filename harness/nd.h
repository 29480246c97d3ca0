/* Nondeterminism, assertions and witnesses shared by every harness.
 * Under CBMC (no REPLAY) values are symbolic; under -DREPLAY they are read from
 * the file named by $ND_FILE, so that a solver model runs natively on the same sources. */
#ifndef ND_H
#define ND_H
#include <stddef.h>
#include <stdint.h>

#ifndef REPLAY

extern unsigned long long nd__value;
unsigned long long nd_raw64(void);
unsigned nd_raw32(void);
unsigned char nd_u8(void);
#define ASSUME(c)        __CPROVER_assume(c)
#define CHECK(c, msg)    __CPROVER_assert((c), msg)
/* a point that must be reachable in some execution: reported as a failing assertion */
#ifdef NO_WITNESS
#define WITNESS(c, msg)  ((void)0)
#else
#define WITNESS(c, msg)  __CPROVER_assert(!(c), "WITNESS " msg)
#endif

#else

unsigned long long nd_raw64(void);
unsigned nd_raw32(void);
unsigned char nd_u8(void);
void replay_assume_failed(const char *c);
void replay_check_failed(const char *msg);
void replay_witness(const char *msg);
#define ASSUME(c)        do { if (!(c)) replay_assume_failed(#c); } while (0)
#define CHECK(c, msg)    do { if (!(c)) replay_check_failed(msg); } while (0)
#define WITNESS(c, msg)  do { if (c) replay_witness(msg); } while (0)

#endif

static inline int nd_range(int lo, int hi)      /* lo..hi inclusive */
{
    unsigned v = nd_raw32();
    ASSUME(v <= (unsigned)(hi - lo));
    return lo + (int) v;
}
static inline int nd_bool(void) { return nd_u8() & 1; }
static inline int nd_int(void) { return (int) nd_raw32(); }
static inline void nd_bytes(unsigned char *p, int n)
{
    int i;
    for (i = 0; i < n; i++) p[i] = nd_u8();
}
/* a NUL-terminated string of length 0..max with arbitrary non-NUL bytes, stored in p[max+1] */
static inline int nd_string(char *p, int max)
{
    int i, len = nd_range(0, max);
    for (i = 0; i < max; i++) {
        char c = (char) nd_u8();
        if (i < len) { ASSUME(c != 0); p[i] = c; }
        else p[i] = 0;
    }
    p[max] = 0;
    return len;
}
#endif
