/* C24: option strings. TEST: 1 log words, 2 log raw, 3 serial, 4 test console, 5 ipmi. */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "common.h"
#include "server.h"
#include "numlib.h"
#include "nd.h"
static int n_msg;
tpoll_t tp_global;
void log_msg(int p, const char *f, ...) { n_msg++; }
void log_err(int e, const char *f, ...) { CHECK(0, "the daemon is terminated by a fatal error"); ASSUME(0); abort(); }
static char err[8];
#define EB (eb ? err : NULL)
static int sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
/* reference number: [ws][sign]digits in the base its prefix tells; 0 none, 1 ok, 2 too big */
static const char *rp;
static int rnum(const char *s, int anybase, int maxdig, long *v)
{
    int neg = 0, n = 0, base = 10; unsigned long x = 0; int big = 0;
    while (sp(*s)) s++;
    if (*s == '-' || *s == '+') { neg = *s == '-'; s++; maxdig--; }
    if (anybase && s[0] == '0') {
        if ((s[1] | 32) == 'x' && ((s[2] >= '0' && s[2] <= '9') || ((s[2] | 32) >= 'a' && (s[2] | 32) <= 'f'))) { base = 16; s += 2; }
        else base = 8;
    }
    for (;;) {
        int d = (*s >= '0' && *s <= '9') ? *s - '0' : ((*s | 32) >= 'a' && (*s | 32) <= 'z') ? (*s | 32) - 'a' + 10 : 99;
        if (d >= base || n >= maxdig) break;
        if (x > (1UL << 58)) big = 1;
        x = MULB(x, base) + d; n++; s++;
    }
    rp = s; *v = neg ? -(long) x : (long) x;
    return !n ? 0 : big ? 2 : 1;
}
#define SL 32
/* the option string: its length and which bytes may be anything (but neither NUL nor a separator) are fixed */
static char str[SL + 1], any[SL + 1]; static int pos;
#define SEPS (TEST <= 2 ? " \t\n.,;" : ",")
static void lit(const char *s) { while (*s) str[pos++] = *s++; }
#if TEST == 1
static void litcase(const char *s) { while (*s) { any[pos] = 1; str[pos++] = nd_bool() && *s >= 'a' && *s <= 'z' ? *s - 32 : *s; s++; } }
#endif
#if TEST > 1
static void sym(int n)
{
    int i;
    for (i = 0; i < n; i++) {
        char c = (char) nd_u8();
#ifdef FIXLEN
        ASSUME(c != 0 && !strchr(SEPS, c));
        any[pos] = 1;
#endif
        str[pos++] = c;                                 /* NUL: a shorter string */
    }
}
#endif
#ifdef FIXLEN
#if defined(REPLAY)
size_t st_strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s), i; for (i = 0; n && i < n - 1 && i < l; i++) d[i] = s[i]; if (n) d[i] = 0; return l; }
char *st_strtok(char *s, const char *d) { return strtok(s, d); }
char *st_strtok_r(char *s, const char *d, char **p) { return strtok_r(s, d, p); }
#else
size_t st_strlcpy(char *d, const char *s, size_t n)
{
    size_t i, l = 0;
    if (s == str) l = pos; else while (s[l]) l++;
    for (i = 0; n && i < n - 1 && i < l; i++) d[i] = s[i];
    if (n) d[i] = 0;
    return l;
}
static char *tk; static int ti;
static int issep(const char *d, int i) { return !any[i] && strchr(d, str[i]); }
char *st_strtok(char *s, const char *d)
{
    char *t;
    __CPROVER_assert(!strcmp(d, SEPS), "libc model: separators as documented");
    if (s) { tk = s; ti = 0; }
    while (ti < pos && issep(d, ti)) ti++;
    if (ti >= pos) return NULL;
    t = tk + ti;
    while (ti < pos && !issep(d, ti)) ti++;
    if (ti < pos) tk[ti++] = 0;
    return t;
}
char *st_strtok_r(char *s, const char *d, char **p) { *p = NULL; return st_strtok(s, d); }
#endif
#endif
#if TEST == 5
#include <ipmiconsole.h>
int ipmiconsole_username_is_valid(const char *u) { return u && strlen(u) <= IPMI_MAX_USER_LEN; }
int ipmiconsole_password_is_valid(const char *u) { return !u || u[0] != '~'; }
int ipmiconsole_k_g_is_valid(const unsigned char *k, unsigned int n) { return n <= IPMI_MAX_KG_LEN && (!n || k[0] != '~'); }
int ipmiconsole_privilege_level_is_valid(int p) { return p >= 2 && p <= 4; }
int ipmiconsole_cipher_suite_id_is_valid(int c) { return c >= 0 && c <= 17 && c != 5; }
int ipmiconsole_workaround_flags_is_valid(unsigned int f) { return !(f & ~0x1ffu); }
static int hexd(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char key[SL]; static int klen;
static int refkey(const char *s, int n, int max)        /* the key a value denotes; 0: too long */
{
    int i, hex = n >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
    for (i = 2; hex && i < n; i++) if (hexd(s[i]) < 0) hex = 0;
    if (hex) { klen = (n - 1) / 2; for (i = 0; i < klen; i++) key[i] = (char) (hexd(s[2 + 2 * i]) << 4 | (3 + 2 * i < n ? hexd(s[3 + 2 * i]) : 0)); }
    else { klen = n; for (i = 0; i < n; i++) key[i] = s[i]; }
    return klen <= max;
}
static int word(const char *s, int n, const char *w)
{
    int i;
    for (i = 0; i < n && w[i] && ((s[i] >= 'A' && s[i] <= 'Z') ? s[i] + 32 : s[i]) == w[i]; i++) ;
    return i == n && !w[i];
}
static ipmiopt_t r;
static int refopt(char k, const char *s, int n)         /* 0: to be rejected */
{
    long v; int q, i;
    if (k >= 'a' && k <= 'z') k -= 32;
    if (k == 'U') {
        if (n > IPMI_MAX_USER_LEN) return 0;
        for (i = 0; i < n; i++) r.username[i] = s[i];
        r.username[n] = 0; r.isUsernameSet = 1;
    } else if (k == 'P' || k == 'K') {
        if (!refkey(s, n, k == 'P' ? IPMI_MAX_PSWD_LEN : IPMI_MAX_KG_LEN)) return 0;
        if (klen && key[0] == '~') return 0;
        if (k == 'P') { for (i = 0; i < klen; i++) r.password[i] = key[i]; r.password[klen] = 0; r.isPasswordSet = 1; }
        else { for (i = 0; i < klen; i++) r.kg[i] = (unsigned char) key[i]; r.kgLen = klen; r.isKgSet = 1; }
    } else if (k == 'L') {
        if (n == 0) v = -1;
        else if (word(s, n, "user")) v = IPMICONSOLE_PRIVILEGE_USER;
        else if (word(s, n, "op") || word(s, n, "operator")) v = IPMICONSOLE_PRIVILEGE_OPERATOR;
        else if (word(s, n, "admin") || word(s, n, "administrator")) v = IPMICONSOLE_PRIVILEGE_ADMIN;
        else { q = rnum(s, 1, 99, &v); if (q != 1 || rp != s + n || v < 2 || v > 4) return 0; }
        r.privilegeLevel = (int) v;
    } else if (k == 'C') {
        if (n == 0) v = -1;
        else { q = rnum(s, 1, 99, &v); if (q != 1 || rp != s + n || v < 0 || v > 17 || v == 5) return 0; }
        r.cipherSuite = (int) v;
    } else if (k != 'W') return 0;
    else {
        unsigned int f;
        if (n == 0 || word(s, n, "default")) f = IPMICONSOLE_WORKAROUND_DEFAULT;
        else if (word(s, n, "none")) f = 0;
        else if (word(s, n, "sun20")) f = IPMICONSOLE_WORKAROUND_SUN_2_0_SESSION;
        else if (word(s, n, "intel20")) f = IPMICONSOLE_WORKAROUND_INTEL_2_0_SESSION;
        else if (word(s, n, "solport")) f = IPMICONSOLE_WORKAROUND_IGNORE_SOL_PORT;
        else if (word(s, n, "authcap")) f = IPMICONSOLE_WORKAROUND_AUTHENTICATION_CAPABILITIES;
        else { q = rnum(s, 1, 99, &v); if (q != 1 || rp != s + n || v < 0 || v > 0x1ff) return 0; f = (unsigned int) v; }
        if (f == 0 || f == IPMICONSOLE_WORKAROUND_DEFAULT || r.workaroundFlags == IPMICONSOLE_WORKAROUND_DEFAULT) r.workaroundFlags = f; else r.workaroundFlags |= f;
    }
    return 1;
}
#endif
#if TEST <= 2
static const char *W[] = { "lock", "nolock", "sanitize", "nosanitize", "timestamp", "notimestamp", "locks", "" };
static void apply(logopt_t *o, int w)
{
    if (w == 0 || w == 1) o->enableLock = w == 0;
    if (w == 2 || w == 3) o->enableSanitize = w == 2;
    if (w == 4 || w == 5) o->enableTimestamp = w == 4;
}
static void cmp(logopt_t a, logopt_t b) { CHECK(a.enableLock == b.enableLock && a.enableSanitize == b.enableSanitize && a.enableTimestamp == b.enableTimestamp, "the settings are what the words say"); }
#endif
int main(void)
{
    int i, rc, eb = nd_bool();
    errno = nd_bool() ? ERANGE : 0;
#if TEST == 1
    logopt_t o, r; static const char SEP[] = " \t\n.,;";
    int w2 = nd_range(0, 7), k;
    o.enableLock = nd_bool(); o.enableSanitize = nd_bool(); o.enableTimestamp = nd_bool();
    r = o;
    str[pos++] = SEP[W1 % 6];
    litcase(W[W1]);
    str[pos++] = SEP[(W1 + 3) % 6];
    for (k = 0; k < 8; k++) if (w2 == k) {
        litcase(W[k]);
        rc = parse_logfile_opts(&o, str, EB, sizeof(err));
        CHECK(rc == 0, "accepted");
        apply(&r, W1); apply(&r, k);
        cmp(o, r);
        CHECK(n_msg == (W1 == 6) + (k == 6), "an unknown word is reported");
        WITNESS(k == 3 && str[pos - 1] == 'E', "words");
        return 0;
    }
#elif TEST == 2
    logopt_t o, r; int bad, k, n, j, unk = 0;
    o.enableLock = nd_bool(); o.enableSanitize = nd_bool(); o.enableTimestamp = nd_bool();
    r = o;
    sym(L1); lit(L2 ? "; " : ""); sym(L2);
    rc = parse_logfile_opts(&o, pos == 0 && nd_bool() ? NULL : str, EB, sizeof(err));
    bad = pos == 0 || pos >= MAX_LINE;
    CHECK(bad ? rc < 0 : rc == 0, "only an empty or overlong string is rejected");
    CHECK(!bad || !eb || err[0], "rejected with a message");
    for (k = 0; !bad && k < 2; k++) if (k ? L2 : L1) {
        const char *w = k ? str + L1 + 2 : str; int l = k ? L2 : L1;
        for (j = 0; j < 6; j++) {
            for (n = 0; n < l && W[j][n] && ((w[n] >= 'A' && w[n] <= 'Z') ? w[n] + 32 : w[n]) == W[j][n]; n++) ;
            if (n == l && !W[j][n]) { apply(&r, j); break; }
        }
        unk += j == 6;
    }
    cmp(o, r);
    CHECK(n_msg == unk, "an unknown word is reported");
    WITNESS(bad || (L1 > 3 ? unk == 0 : unk > 0), "words");
#elif TEST == 3
    static const struct { int v; speed_t b; } T[] = { {50,B50},{75,B75},{110,B110},{134,B134},{150,B150},{200,B200},{300,B300},{600,B600},{1200,B1200},{1800,B1800},{2400,B2400},{4800,B4800},{9600,B9600},{19200,B19200},{38400,B38400},{57600,B57600},{115200,B115200},{230400,B230400},{460800,B460800} };
    seropt_t o, r, r0; long v; int ok = 1, q;
    o.bps = B9600; o.databits = nd_range(5, 8); o.parity = nd_range(0, 2); o.stopbits = nd_range(1, 2);
    r = r0 = o;
    lit(PREFIX); sym(NSYM);
    rc = parse_serial_opts(&o, str, EB, sizeof(err));
    q = rnum(str, 0, 9, &v);
    if (!q || v < 50) ok = 0;
    else { for (i = 0; i < 19; i++) if (T[i].v <= v) r.bps = T[i].b; }
    if (ok && *rp) {
        if (*rp != ',') ok = 0;
        else {
            q = rnum(rp + 1, 0, 9, &v);
            if (!q || v < 5 || v > 8) ok = 0; else r.databits = (int) v;
        }
        if (ok && *rp) {
            if ((*rp | 32) == 'n' && *rp != 14) r.parity = 0; else if (*rp == 'o' || *rp == 'O') r.parity = 1; else if (*rp == 'e' || *rp == 'E') r.parity = 2; else ok = 0;
            if (ok && rp[1]) {
                q = rnum(rp + 1, 0, 9, &v);
                if (!q || v < 1 || v > 2 || *rp) ok = 0; else r.stopbits = (int) v;
            }
        }
    }
    CHECK((rc == 0) == ok, "accepted exactly when well formed and in range");
    if (!ok) r = r0;
    CHECK(o.bps == r.bps && o.databits == r.databits && o.parity == r.parity && o.stopbits == r.stopbits, "applied completely or not at all");
    CHECK(ok || !eb || err[0], "rejected with a message");
    WITNESS(ok != BADW, "decided");
#elif TEST == 4
    test_opt_t o, r, r0; long v; int ok = 1, q; const char *s; char c;
    o.numBytes = 1; o.msecMax = 2; o.msecMin = 3; o.probability = 4;
    r = r0 = o;
    lit(PREFIX); sym(NSYM); lit(SUFFIX);
    /* recorded findings, each with a harness of its own (KF): an empty value, and ERANGE left over from an earlier call */
    errno = KF == 2 ? ERANGE : 0;
    for (i = 0; !KF && i + 1 < pos; i++)
            ASSUME(!((i == 0 || (!any[i - 1] && str[i - 1] == ',')) && str[i + 1] == ':' && (i + 2 == pos || (!any[i + 2] && str[i + 2] == ','))));
    rc = parse_test_opts(&o, str, EB, sizeof(err));
    for (s = str; ok && *s; ) {
        if (*s == ',') { s++; continue; }
        c = *s | 32;
        if (!((*s >= 'A' && *s <= 'Z') || (*s >= 'a' && *s <= 'z')) || (c != 'b' && c != 'm' && c != 'n' && c != 'p') || s[1] != ':') { ok = 0; break; }
        q = rnum(s + 2, 1, 99, &v); s = rp;
        if (q != 1 || (*s && *s != ',') || v < 0 || v > INT_MAX) { ok = 0; break; }
        if (c == 'b') r.numBytes = (int) v; if (c == 'm') r.msecMax = (int) v; if (c == 'n') r.msecMin = (int) v; if (c == 'p') r.probability = v > 100 ? 100 : (int) v;
    }
    CHECK((rc == 0) == ok, "accepted exactly when well formed and in range");
    if (KF) return 0;
    if (!ok) r = r0;
    CHECK(o.numBytes == r.numBytes && o.msecMax == r.msecMax && o.msecMin == r.msecMin && o.probability == r.probability, "applied completely or not at all");
    CHECK(ok || !eb || err[0], "rejected with a message");
    WITNESS(ok != BADW, "decided");
#elif TEST == 5
    ipmiopt_t o; int ok = 1, a, b; char k;
    memset(&o, 0, sizeof(o));
    o.privilegeLevel = nd_range(2, 4); o.cipherSuite = 3; o.workaroundFlags = nd_bool() ? 0x10 : IPMICONSOLE_WORKAROUND_DEFAULT; o.username[0] = 'z';
    lit(PREFIX); sym(NSYM); lit(SUFFIX);
    r = o;
    for (a = 0; ok && a < pos; a = b + 1) {
        for (b = a; b < pos && (any[b] || str[b] != ','); b++) ;
        if (b == a) continue;
        k = str[a];
        ok = b > a + 1 && str[a + 1] == ':' && refopt(k, str + a + 2, b - a - 2);
    }
    { ipmiopt_t o0 = o;
    rc = parse_ipmi_opts(&o, str, EB, sizeof(err));
    CHECK((rc == 0) == ok, "accepted exactly when well formed and in range");
    if (!ok) r = o0; }
    CHECK(!strcmp(o.username, r.username) && o.isUsernameSet == r.isUsernameSet, "user name");
    CHECK(!strcmp(o.password, r.password) && o.isPasswordSet == r.isPasswordSet, "password");
    CHECK(o.kgLen == r.kgLen && o.isKgSet == r.isKgSet && !memcmp(o.kg, r.kg, sizeof(o.kg)), "K_g");
    CHECK(o.privilegeLevel == r.privilegeLevel && o.cipherSuite == r.cipherSuite && o.workaroundFlags == r.workaroundFlags, "applied completely or not at all");
    CHECK(ok || !eb || err[0], "rejected with a message");
    WITNESS(ok != BADW, "decided");
#endif
    return 0;
}
