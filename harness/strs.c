/* C17: bounded string helpers of util-str.c against independent definitions of their results. */
#include <config.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "util-str.h"
#include "nd.h"
#define T_APPEND 1
#define T_SUBST 2
#define T_PARSE 3
#define T_MISC 4
#define T_DELTA 5
#ifndef REPLAY
void log_err(int e, const char *f, ...) { CHECK(0, "fatal error in a string helper"); ASSUME(0); }
void log_msg(int p, const char *f, ...) { }
#else
#include <stdio.h>
void log_err(int e, const char *f, ...) { CHECK(0, "fatal error in a string helper"); abort(); }
void log_msg(int p, const char *f, ...) { }
#endif
time_t st_time(time_t *t) { if (t) *t = 1000; return 1000; }
struct tm *st_localtime_r(const time_t *t, struct tm *tm) { memset(tm, 0, sizeof(*tm)); return tm; }
size_t st_strftime(char *s, size_t max, const char *fmt, const struct tm *tm)
{
    unsigned i;
    if (max < 21) return 0;
    for (i = 0; i < 20; i++) s[i] = 'T';
    s[20] = 0;
    return 20;
}
#if TEST == T_DELTA
#include <stdarg.h>
static unsigned U[256], units;
static char last;
int st_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap;
    int i;
    va_start(ap, f);
    for (i = 0; f[i]; i += 3) {
        CHECK(f[i] == '%' && f[i + 1] == 'd', "a number before each unit");
        last = f[i + 2];
        U[(unsigned char) last] = va_arg(ap, int);
        units++;
    }
    va_end(ap);
    CHECK(n >= 2, "room");
    b[0] = 'd'; b[1] = 0;
    return 1;
}
#endif
#define N 6
#define G 3
int main(void)
{
#if TEST == T_APPEND
    unsigned char mem[N + 2 * G], ref[N + 2 * G];
    char *dst = (char *) mem + G;
    char src[N + 1];
    int size = nd_range(0, N), i, step, rc, len, slen, room, trunc = 0;
    nd_bytes(mem, sizeof(mem));
    for (step = 0; step < 2; step++) {
        for (i = 0; i < N + 2 * G; i++) ref[i] = mem[i];
        slen = nd_string(src, N);
        for (len = 0; len < size; len++) if (!dst[len]) break;      /* length of the old text, or size */
        rc = append_format_string(dst, size, "%s", src);
        for (i = 0; i < N + 2 * G; i++)
            if (i < G || i >= G + size) CHECK(mem[i] == ref[i], "append writes outside the destination");
        if (size == 0) { CHECK(rc == 0, "append to nothing"); continue; }
        if (len == size) { CHECK(rc == -1, "append to a full buffer reports truncation"); CHECK(dst[size - 1] == 0, "result is terminated"); trunc = 1; continue; }
        room = size - 1 - len;
        CHECK(dst[len + (slen < room ? slen : room)] == 0, "result is terminated where the text ends");
        for (i = 0; i < N; i++) {
            if (i < len) CHECK(dst[i] == (char) ref[G + i], "existing text is preserved");
            else if (i - len < slen && i - len < room) CHECK(dst[i] == src[i - len], "appended text is exact");
        }
        if (room == 0 || slen > room) CHECK(rc == -1, "truncation is reported");
        else CHECK(rc == len + slen, "length is reported when nothing is lost");
        if (trunc) CHECK(rc == -1, "append after truncation reports truncation");
        trunc = (rc == -1);
    }
    WITNESS(rc == 5 && slen == 3, "append that fits");
#elif TEST == T_SUBST
    unsigned char mem[N + 2 * G], ref[N + 2 * G];
    char *dst = (char *) mem + G, src[6], sub[4], want[32];
    int size = nd_range(1, N), i, rc, n = 0, j, havesub;
    nd_bytes(mem, sizeof(mem));
    for (i = 0; i < N + 2 * G; i++) ref[i] = mem[i];
    for (i = 0; i < 5; i++) src[i] = nd_u8();
    src[5] = 0;
    nd_string(sub, 3);
    havesub = nd_bool();
    for (i = 0; i < 5; i++) {
        if (!src[i]) break;
        if (src[i] == '%' && src[i + 1] == 'N') {
            if (havesub) for (j = 0; j < 3; j++) { if (!sub[j]) break; want[n++] = sub[j]; }
            i++;
        } else want[n++] = src[i];
    }
    rc = substitute_string(dst, size, src, 'N', havesub ? sub : NULL);
    for (i = 0; i < N + 2 * G; i++)
        if (i < G || i >= G + size) CHECK(mem[i] == ref[i], "substitute writes outside the destination");
    CHECK(rc == (n < size ? n : -1), "substitute reports the length, or truncation");
    if (n < size) CHECK(dst[n] == 0, "result is terminated");
    else CHECK(dst[size - 1] == 0, "truncated result is terminated");
    for (i = 0; i < N; i++) if (i < n && i < size - 1) CHECK(dst[i] == want[i], "substituted text is exact");
    WITNESS(rc == 5 && havesub, "two substitutions");
#elif TEST == T_PARSE
    /* words of a command line: an independent tokenizer */
    char s[N + 1], o[N + 1], *w, *p = NULL, q;
    int len = nd_string(s, N), i, k, e, rc;
    memcpy(o, s, N + 1);
    i = 0;
    for (k = 0; k < 4; k++) {
        q = 'z';
        rc = parse_string(s, &w, &p, &q);
        while (i < len && (o[i] == ' ' || (o[i] >= 9 && o[i] <= 13))) i++;
        if (i >= len) { CHECK(rc == 0 && *w == 0, "no more words"); break; }
        if ((o[i] == '"' || o[i] == '\'') && i + 1 < len) {
            for (e = i + 1; e < len; e++)
                if (o[e] == o[i] && (e + 1 == len || o[e + 1] == ' ' || (o[e + 1] >= 9 && o[e + 1] <= 13))) break;
            if (e == len) { CHECK(rc == -1, "unterminated quoted word is an error"); break; }
            CHECK(rc == 1 && q == o[i], "quoted word");
            CHECK(w == s + i + 1 && (int) strlen(w) == e - i - 1, "quoted word extent");
        } else {
            for (e = i; e < len && !(o[e] == ' ' || (o[e] >= 9 && o[e] <= 13)); e++) ;
            CHECK(rc == 1 && q == 0, "plain word");
            CHECK(w == s + i && (int) strlen(w) == e - i, "plain word extent");
        }
        CHECK(p >= s && p <= s + len, "position stays inside the text");
        CHECK(memcmp(w, o + (w - s), strlen(w)) == 0, "word text unchanged");
        i = e + 1;
        WITNESS(k == 1 && q == '"', "second word quoted");
    }
#elif TEST == T_MISC
    char s[N + 1], *r, d[32];
    int len = nd_string(s, N), i, blank = 1, rc;
    for (i = 0; i < N; i++) if (i < len && !(s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) blank = 0;
    CHECK(is_empty_string(s) == blank, "empty means only white space");
    r = create_string(s);
    CHECK(strcmp(r, s) == 0, "copy equals original");
    rc = replace_string(&r, "xy");
    CHECK(rc == 0 && !strcmp(r, "xy"), "replaced");
    destroy_string(r);
    r = create_format_string("%s", s);      /* limit scaled to 4 */
    for (i = 0; i < N; i++) if (i <= 3 && i <= len) CHECK(r[i] == (i == 3 ? 0 : s[i]), "formatted string is a terminated prefix");
    free(r);
    i = nd_range(0, 32);
    for (rc = 0; rc < 32; rc++) d[rc] = 'G';
    rc = write_time_string(5, d, i);
    CHECK(rc == (i > 20 ? 20 : 0), "time stamp is whole or absent");
    for (i = 21; i < 32; i++) CHECK(d[i] == 'G', "time stamp stays in bounds");
    WITNESS(blank && len == 2, "blank string");
#elif TEST == T_DELTA
    /* every component within its range and their sum equal to the difference */
    time_t t0 = nd_raw32() % 100000u;
    unsigned dt = nd_raw32(), total;
    char *r;
    ASSUME(dt < 20000);
    r = create_time_delta_string(t0, t0 + dt);
    CHECK(r[0] == 'd' && !r[1] && units >= 1 && last == 's', "seconds end the text");
    total = U['s'] + U['m'] * 60 + U['h'] * 3600 + U['d'] * 86400 + U['w'] * 604800 + U['y'] * 31449600;
    CHECK(total == dt, "components add up to the difference");
    CHECK(U['s'] < 60 && U['m'] < 60 && U['h'] < 24 && U['d'] < 7 && U['w'] < 52, "components within range");
    WITNESS(units == 3, "hours");
#endif
    return 0;
}
