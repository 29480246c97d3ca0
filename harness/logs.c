/* C31: daemon diagnostics. Real code: log_msg, log_err, log_aux, log_set_file, log_set_syslog (log.c). */
#include <config.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>
#include <time.h>
#include "log.h"
#include "util-str.h"
#include "nd.h"
#ifndef ML
#define ML 20                           /* MAX_LINE */
#endif
#define MSGMAX (ML + 2)
static char text[MSGMAX + 1]; static int tlen, tnl, ts_fail;
static FILE *fp;
static char out[2][ML + 4]; static int n_out[2], bad_out, n_pipe; static signed char pipe_prio; static char piped[ML + 4]; static int pipe_len;
static int want_err, pr, exited;
struct tm *get_localtime(time_t *t, struct tm *tm) { return tm; }
size_t st_strftime(char *s, size_t max, const char *f, const struct tm *tm)
{
    if (ts_fail || max < 4) return 0;
    s[0] = '1'; s[1] = '2'; s[2] = ' '; s[3] = 0;
    return 3;
}
int st_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    int i;
    for (i = 0; i < MSGMAX; i++) if (i < tlen && (size_t) i + 1 < n) b[i] = text[i];
    if (n) b[(size_t) tlen < n ? (size_t) tlen : n - 1] = 0;
    return tlen;
}
static void record(int d, const char *s)
{
    int i;
    if (d < 0) { bad_out++; return; }
    n_out[d]++;
    for (i = 0; i < ML; i++) { out[d][i] = s[i]; if (!s[i]) return; }
    CHECK(0, "a message never exceeds its buffer");
}
static int io_fail;
int st_fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    CHECK(fmt[0] == '%' && fmt[1] == 's' && !fmt[2], "message text is never used as a format");
    va_start(ap, fmt); record(f == fp && fp ? 0 : -1, va_arg(ap, const char *)); va_end(ap);
    if (io_fail) return EOF;
    return 1;
}
int st_fputs(const char *s, FILE *f) { record(f == fp && fp ? 0 : -1, s); return io_fail ? EOF : 1; }
static int n_crit;
void st_syslog(int p, const char *fmt, ...)
{
    va_list ap;
    if (io_fail && n_out[0]) { n_crit++; return; }
    CHECK(fmt[0] == '%' && fmt[1] == 's' && !fmt[2], "message text is never used as a format");
    CHECK(p == pr, "syslog priority");
    va_start(ap, fmt); record(1, va_arg(ap, const char *)); va_end(ap);
}
static int idok;
void st_openlog(const char *id, int o, int f) { idok = id[0] == 'd' && !id[1] && f == LOG_DAEMON; }
void st_closelog(void) { }
int st_setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
#undef ferror
int st_ferror(FILE *f) { return 0; }
char *st_getenv(const char *n) { return NULL; }
ssize_t st_write(int fd, const void *b, size_t n)
{
    size_t i;
    CHECK(fd == 9, "only the parent is told");
    if (n_pipe++ == 0) { CHECK(n == 1, "priority first"); pipe_prio = *(const signed char *) b; return 1; }
    CHECK(n <= ML, "message within bounds");
    for (i = 0; i < ML; i++) if (i < n) piped[i] = ((const char *) b)[i];
    pipe_len = (int) n;
    return (ssize_t) n;
}
static const char *PN[] = { "EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "UNKNOWN" };
static char ref[MSGMAX + 24]; static int n_ref;
static void put(char c) { ref[n_ref++] = c; }
static void verify(int d, int from)
{
    int i, n = n_ref - from;
    for (i = 0; i < ML; i++) {
        if (i >= n) break;
        CHECK(out[d][i] == ref[from + i], "prefix, message and line end, in full or cut at the limit");
    }
    CHECK(out[d][n] == 0, "exactly one line end");
}
static void check_all(void);
void st_exit(int st)
{
    exited = 1;
    CHECK(want_err && st != 0, "only a fatal message ends the program, with a failure status");
    check_all();
    ASSUME(0);
    abort();
}
static int thr, sysl, stamp, pipe_on, errn;
static void check_all(void)
{
    int i, j, p0, m0;
    const char *p = PN[pr >= 0 && pr < 8 ? pr : 8];
    if (!ts_fail) { put('1'); put('2'); put(' '); }
    p0 = n_ref;
    if (!ts_fail) {
    for (i = 0; p[i]; i++) put(p[i]);
    put(':');
    for (; n_ref < p0 + 11; ) put(' ');
    m0 = n_ref;
    for (i = 0; i < MSGMAX; i++) if (i < tlen && n_ref < ML - 2) put(text[i]);
    if (!tnl && errn > 0) for (i = 0; i < 7; i++) if (n_ref < ML - 2) put(": error"[i]);
    } else m0 = n_ref;
    if (n_ref == 0 || ref[n_ref - 1] != '\n') put('\n');
    n_out[0] = n_out[0]; 
    CHECK(!bad_out, "only the enabled file is written");
    CHECK(n_out[0] == (fp && pr <= thr), "the file gets the message once, exactly when it is severe enough");
    CHECK(n_out[1] == sysl, "syslog gets the message once if enabled");
    CHECK(n_crit == (io_fail && n_out[0]), "an unwritable log is reported");
    if (n_out[0]) verify(0, stamp ? 0 : p0);
    if (n_out[1]) verify(1, m0);
    if (want_err && pipe_on) {
        CHECK(n_pipe >= 1 && pipe_prio == LOG_ERR, "the parent is told that startup failed");
        if (n_pipe > 1) CHECK(pipe_len >= 1 && piped[pipe_len - 1] == 0, "with a terminated message");
    } else CHECK(n_pipe == 0, "the parent is told of fatal messages only");
    WITNESS(n_out[0] && tlen > ML - 14, "cut");
}
int main(void)
{
    static char dummy[sizeof(FILE)];
    int i;
    tnl = nd_bool();
    ts_fail = 0;
    tlen = nd_range(tnl, MSGMAX);
    for (i = 0; i < MSGMAX; i++) { text[i] = (char) nd_u8(); ASSUME(text[i] && text[i] != '\n'); }
    if (tnl) for (i = 0; i < MSGMAX; i++) if (i == tlen - 1) text[i] = '\n';
    thr = nd_range(0, 7); sysl = nd_bool(); stamp = nd_bool(); pipe_on = nd_bool();
    if (nd_bool()) fp = (FILE *) dummy;
    want_err = ERR; pr = want_err ? LOG_ERR : nd_range(0, 8);
    log_set_file(fp, thr, stamp);
    if (sysl) { static char id[] = "/b/d"; log_set_syslog(id, LOG_DAEMON); CHECK(idok, "identity"); }
    if (pipe_on) log_set_err_pipe(9);
    io_fail = nd_bool();
    if (want_err) { errn = nd_range(0, 2); log_err(errn, tnl ? "%s\n" : "%s", ""); CHECK(0, "a fatal message ends the program"); }
    else log_msg(pr, tnl ? "%s\n" : "%s", "");
    check_all();
    return 0;
}
