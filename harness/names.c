/* C15: compare_objs. C16: format_obj_string. */
#include "objkit.h"
#define T_PAIR 1
#define T_NUM 2
#define T_TRI 3
#define T_FMT 4
static obj_t A_, B_, C_;
int st_getpid(void) { return 7; }
static int n_strf;
static struct tm *the_tm;
struct tm *get_localtime(time_t *t, struct tm *tm) { the_tm = tm; return tm; }
static int strf_len = 2;
/* the documented date specifiers: fixed text here */
size_t st_strftime(char *s, size_t max, const char *f, const struct tm *tm)
{
    n_strf++;
    CHECK(f[0] == '%' && f[1] && !f[2] && tm == the_tm, "date conversion");
    if (max < (size_t) strf_len + 1) { if (max) s[0] = 'J'; return 0; }
    s[0] = '1'; s[1] = f[1]; s[2] = 0;
    return 2;
}
char *create_string(const char *s) { return s ? strdup(s) : NULL; }
static int sign(int x) { return x < 0 ? -1 : x > 0; }
#if TEST != T_FMT
#ifndef L
#define L 4
#endif
typedef struct { int plen, dlen, len; const unsigned char *s; } key_t_;
static key_t_ key(const char *n)
{
    key_t_ k;
    int i;
    k.s = (const unsigned char *) n;
    for (k.len = 0; k.len < L && n[k.len]; k.len++) ;
    k.plen = k.len;
    for (i = 0; i < L; i++) if (k.plen > 0 && n[k.plen - 1] >= '0' && n[k.plen - 1] <= '9') k.plen--;
    k.dlen = k.len - k.plen;
    for (i = 0; i < L; i++) if (k.dlen > 0 && n[k.len - k.dlen] == '0') k.dlen--;
    return k;
}
/* -2 = unspecified */
static int ref(const char *a, const char *b)
{
    key_t_ x = key(a), y = key(b);
    int i;
    for (i = 0; i < L; i++) {
        if (i >= x.plen || i >= y.plen) break;
        if (x.s[i] != y.s[i]) return x.s[i] < y.s[i] ? -1 : 1;
    }
    if (x.plen != y.plen) return x.plen < y.plen ? -1 : 1;
    if (x.dlen != y.dlen) return x.dlen < y.dlen ? -1 : 1;
    for (i = 0; i < L; i++) if (i < x.dlen) {
        int p = x.s[x.len - x.dlen + i], q = y.s[y.len - y.dlen + i];
        if (p != q) return p < q ? -1 : 1;
    }
    for (i = 0; i <= L; i++) {
        if (x.s[i] != y.s[i]) return -2;        /* same number, written differently: either way */
        if (!x.s[i]) return 0;
    }
    return 0;
}
int main(void)
{
    char a[L + 1], b[L + 1], c[L + 1];
    int r, s, i;
    nd_string(a, L); nd_string(b, L);
#if TEST == T_NUM
    ASSUME(a[0] && b[0]);
    for (i = 1; i < L; i++) { ASSUME(!a[i] || (a[i] >= '0' && a[i] <= '9')); ASSUME(!b[i] || (b[i] >= '0' && b[i] <= '9')); }
#endif
    A_.name = a; B_.name = b; C_.name = c;
    r = sign(compare_objs(&A_, &B_));
    s = ref(a, b);
#if TEST == T_TRI
    nd_string(c, L);
    i = sign(compare_objs(&B_, &C_));
    if (r <= 0 && i <= 0) {
        int t = sign(compare_objs(&A_, &C_));
        CHECK(t <= 0, "the order is transitive");
        if (r < 0 || i < 0) CHECK(t < 0, "the order is transitive (strictly)");
    }
    CHECK(r == -sign(compare_objs(&B_, &A_)), "the order is antisymmetric");
    if (r == 0) CHECK(s == 0, "only equal names compare equal, so that a sorted list does not depend on the initial order");
    WITNESS(r < 0 && i < 0, "three names");
#else
    if (s != -2) CHECK(r == s, "characters before the trailing number, then its value");
    WITNESS(s == -2, "leading zeros");
#if TEST == T_NUM
    WITNESS(s == 1 && a[L - 1] && b[L - 1], "long numbers");
#else
    WITNESS(s == 1 && a[0] == b[0] && a[1] > '0' && a[1] < b[1] && b[1] < '9', "numeric order");
#endif
#endif
    return 0;
}
#else
#ifndef FL
#define FL 4
#endif
#define NM 3
#define OUTMAX 24
#define BMAX 9
static int known(int c) { return c == 'd' || c == 'g' || c == 'G' || c == 'H' || c == 'j' || c == 'm' || c == 'M' || c == 's' || c == 'S' || c == 'u' || c == 'U' || c == 'V' || c == 'w' || c == 'W' || c == 'y' || c == 'Y'; }
static char ex[OUTMAX]; static int n_ex;
static void put(int c) { CHECK(n_ex < OUTMAX, "harness"); if (n_ex < OUTMAX) ex[n_ex] = (char) c; n_ex++; }
static void puts_(const char *s, int max) { int i; for (i = 0; i < max; i++) { if (!s[i]) break; put(s[i]); } }
static void putsan(const char *s, int max) { int i; for (i = 0; i < max; i++) { int c = (unsigned char) s[i]; if (!c) break; put(c <= ' ' || c >= 127 || c == '/' ? '_' : c); } }
int main(void)
{
    static char fmt[FL + 3], name[NM + 1], dev[NM + 1], buf[BMAX + 2];
    int fl, i, n, r, bl, has = OTYPE >= 0, con = 0;
    fl = nd_string(fmt, FL);
    fmt[fl + 1] = 'Z';          /* text beyond the end */
    nd_string(name, NM); nd_string(dev, NM);
    bl = nd_range(1, BMAX);
    for (i = 0; i < BMAX + 2; i++) buf[i] = (char) 0x5A;
#if OTYPE >= 0
    A_.name = name; A_.type = OTYPE;
    con = OTYPE != CONMAN_OBJ_CLIENT && OTYPE != CONMAN_OBJ_LOGFILE;
#if OTYPE == 8          /* serial */
    A_.aux.serial.dev = dev;
#elif OTYPE == 0x10
    A_.aux.telnet.host = dev; A_.aux.telnet.port = 23;
#elif OTYPE == 0x20
    A_.aux.unixsock.dev = dev;
#endif
#endif
    for (i = 0; i < FL; i++) if (i < fl) {
        if (fmt[i] != '%' || i + 1 == fl) put(fmt[i]);
        else {
            char c = fmt[++i];
            if (c == 'N' && has) { if (con) putsan(name, NM); }
            else if (c == 'D' && has) {
#if OTYPE == 0x10
                putsan(dev, NM); puts_(":23", 3);
#elif OTYPE == 8 || OTYPE == 0x20
                int s = 0, k;
                for (k = 0; k < NM; k++) { if (!dev[k]) break; if (dev[k] == '/') s = k + 1; }
                putsan(dev + s, NM);
#endif
            }
            else if (c == 'P') put('7');
            else if (c == '%') put('%');
            else if (known(c)) { put('1'); put(c); }
            else { put('%'); put(c); }
        }
    }
    r = format_obj_string(buf, bl, has ? &A_ : NULL, fmt);
    for (i = 0; i < BMAX + 2; i++) if (i >= bl) CHECK(buf[i] == 0x5A, "nothing is written beyond the space given");
    n = -1;
    for (i = BMAX; i >= 0; i--) if (i < bl && !buf[i]) n = i;
    CHECK(n >= 0, "the result is always terminated");
    CHECK((r >= 0) == (n_ex < bl), "failure is reported exactly when the expansion does not fit");
    if (r >= 0) {
        CHECK(r == n_ex && n == n_ex, "the expansion is complete");
        for (i = 0; i < BMAX; i++) if (i < n_ex) CHECK(buf[i] == ex[i], "the expansion is exact");
        WITNESS(n_ex == bl - 1 && n_ex > 3, "exact fit");
    } else WITNESS(n_strf, "too long after a date");
    return 0;
}
#endif
