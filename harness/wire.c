/* C12/C13: requests and answers as they cross the connection. Real code: client-sock.c
 * (send_greeting, send_req, recv_rsp), server-sock.c (recv_greeting, recv_req, send_rsp, the
 * parsers), common.c's keyword table. The formatter and the lexer are replaced by a channel of
 * tokens: what is formatted is recorded as the tokens the lexer would return (C11 decides the
 * lexer and the text encoding, C17 the appending). Texts are two bytes, the second arbitrary;
 * encoding marks the first, so text that skips a conversion, or has it twice, is noticed. */
#include "objkit.h"
#include <ctype.h>
#include <limits.h>
#include <stdio.h>
#include "lex.h"
#include "util-net.h"
#include "client.h"
#include "common.c"
#ifndef NTK
#define NTK 24
#endif
static int st_t[NTK + 1], rx_t[NTK + 1];        /* tokens and their texts */
static char st_a[NTK + 1], st_b[NTK + 1], rx_a[NTK + 1], rx_b[NTK + 1];
static int n_st, n_rx, n_app;           /* message being built; message being read */
static int over, over_at, n_fmts;       /* the message did not fit */
static int n_sent, wfail;
static int rd_res, rd_cut;              /* next read: 1 line, 0 end of file, -1 error; without line end */
static int text_keep;

#define T_(k) LEX_TOK_OFFSET + k
static int tokv[] = { T_(0), T_(1), T_(2), T_(3), T_(4), T_(5), T_(6), T_(7), T_(8), T_(9), T_(10), T_(11), T_(12), T_(13), T_(14), T_(15), T_(16), T_(17) };
static int tok_of(const char *s)
{
    int k;
    for (k = 0; proto_strs[k]; k++) { int i = 0; const char *q = proto_strs[k]; while (q[i] && q[i] == s[i]) i++; if (q[i] == s[i]) return tokv[k]; }
    return LEX_STR;
}
static void rec(int t, const char *s)
{
    CHECK(n_st < NTK, "HARNESS-GAP token channel capacity");
    ASSUME(n_st < NTK);
    st_t[n_st] = t;
    st_a[n_st] = s ? s[0] : 0; st_b[n_st] = s && s[0] ? s[1] : 0;
    if (s && s[0]) CHECK(!s[1] || !s[2] || s[0] == 'e', "HARNESS-GAP text length");
    n_st++;
}
/* fixed arguments instead of a variable argument list, which the solver cannot follow */
static int format(int append, char *dst, size_t size, const char *fmt, const void *a0, const void *a1, const void *a2, const void *a3, const void *a4)
{
    int i, k = 0;
    const void *arg;
    if (over && append) return -1;
    if (++n_fmts == over_at) { over = 1; return append ? -1 : (int) size; }
    if (!append) n_st = n_app = 0;
    for (i = 0; fmt[i]; i++) {
        arg = k == 0 ? a0 : k == 1 ? a1 : k == 2 ? a2 : k == 3 ? a3 : a4;
        if (fmt[i] == '%' && fmt[i + 1] == 's') {
            if (i > 0 && fmt[i - 1] == '\'') rec(LEX_STR, arg);
            else rec(tok_of(arg), NULL);
            i++; k++;
        }
        else if (fmt[i] == '%' && fmt[i + 1] == 'd') {
            int v = (int) (long) arg;
            char b[3];
            CHECK(v >= 0 && v < 10, "HARNESS-GAP number");
            b[0] = '0' + v; b[1] = 0; b[2] = 0;
            rec(LEX_INT, b);
            i++; k++;
        }
        else if (fmt[i] == '=') rec('=', NULL);
        else if (fmt[i] == '\n') rec(LEX_EOL, NULL);
        else CHECK(fmt[i] == ' ' || fmt[i] == '\'', "HARNESS-GAP message format");
    }
    dst[n_app++] = 'x'; dst[n_app] = 0;
    return n_app;
}
#define P_(x) ((const void *) (x))
#define F__(ap, d, n, f, a, b, c, e, g, ...) format(ap, d, n, f, P_(a), P_(b), P_(c), P_(e), P_(g))
#define F_(ap, d, n, ...) F__(ap, d, n, __VA_ARGS__, 0, 0, 0, 0, 0, 0, 0, 0, 0)
static void new_msg(void) { n_st = n_app = over = n_sent = n_fmts = 0; over_at = 0; }

ssize_t write_n(int fd, void *buf, size_t n)
{
    const char *q = buf;
    int i;
    for (i = 0; i < n_app; i++) CHECK(q[i] == 'x', "HARNESS-GAP text not built by the formatter");
    CHECK(!q[n_app], "HARNESS-GAP text not built by the formatter");
    if (q[n_app]) return n;
    CHECK(fd == 5, "messages go to the peer");
    CHECK(!over, "a message that did not fit is not sent");
    CHECK(n_st > 0 && (int) n == n_app && st_t[n_st - 1] == LEX_EOL, "whole lines are sent");
    CHECK(!n_sent, "one message");
    n_sent++;
    if (wfail) { errno = EPIPE; return -1; }
    return n;
}
ssize_t read_line(int fd, void *buf, size_t maxlen)
{
    char *p = buf;
    if (rd_res < 0) { errno = ECONNRESET; return -1; }
    if (rd_res == 0) return 0;
    p[0] = 'x';
    if (rd_cut) { p[1] = 0; return 1; }
    p[1] = '\n'; p[2] = 0;
    return 2;
}
static int pos, cur;
static char lxtext[3];
static int lexes;
Lex lex_create(void *buf, char *toks[]) { CHECK(toks == proto_strs, "the protocol's keywords are used"); lexes++; pos = 0; cur = 0; return (Lex) lxtext; }
void lex_destroy(Lex l) { lexes--; }
int lex_next(Lex l)
{
    int i;
    if (pos >= n_rx) { lxtext[0] = lxtext[1] = 0; return cur = LEX_EOF; }
    lxtext[0] = rx_a[pos]; lxtext[1] = rx_b[pos]; lxtext[2] = 0;
    cur = rx_t[pos++];
    return cur;
}
int lex_prev(Lex l) { return cur; }
const char *lex_text(Lex l) { return lxtext; }
const char *lex_tok_to_str(Lex l, int tok) { return tok >= LEX_TOK_OFFSET ? proto_strs[tok - LEX_TOK_OFFSET] : NULL; }
char *lex_encode(char *s) { if (s) { CHECK(s[0] != 'e', "text is encoded once"); if (s[0]) s[0] = 'e'; } return s; }
char *lex_decode(char *s) { if (s) { CHECK(s[0] == 'e' || !s[0], "text is decoded once"); if (s[0]) s[0] = 'n'; } return s; }
static char pool[20][3];
static int n_pool;
static void st_free(void *p) { }
char *create_string(const char *s)
{
    char *p;
    if (!s) return NULL;
    CHECK(n_pool < 20, "HARNESS-GAP strings"); ASSUME(n_pool < 20);
    p = pool[n_pool++];
    p[0] = s[0]; p[1] = s[0] ? s[1] : 0; p[2] = 0;
    return p;
}
#define create_format_string(...) fmt_string()
char *fmt_string(void) { char *p = pool[n_pool++]; p[0] = 'f'; p[1] = p[2] = 0; return p; }
//const char *fmt, ...) { char *p = pool[n_pool++]; p[0] = 'f'; p[1] = p[2] = 0; return p; }
int host_name_to_addr4(const char *n, struct in_addr *a) { return -1; }
int st_shutdown(int fd, int how) { return wfail ? -1 : 0; }
int hosts_ctl(char *a, char *b, char *c, char *d) { return 1; }
#include "numlib.h"
/* lengths stay known to the solver: every text counts as two bytes, or as too long at the chosen point */
static size_t cpy(char *d, const char *s, size_t n)
{
    if (++n_fmts == over_at) { over = 1; d[0] = 0; return n; }
    d[0] = s[0]; d[1] = s[0] ? s[1] : 0; d[2] = 0;
    return s[0] ? 2 : 0;
}
#undef strlcpy
#define strlcpy(d, s, n) cpy(d, s, n)
#define append_format_string(d, n, ...) F_(1, d, n, __VA_ARGS__)
#undef snprintf
#define snprintf(d, n, ...) F_(0, d, n, __VA_ARGS__)
#undef atoi
#define atoi(s) ((s)[0] - '0')
#define free st_free
#define shutdown st_shutdown
#include "client-sock.c"
#include "server-sock.c"

static char *text(char id) { char *p = pool[n_pool++]; p[0] = 'n'; p[1] = id; p[2] = 0; return p; }
static void deliver(void)
{
    int i;
    for (i = 0; i < NTK; i++) { rx_t[i] = st_t[i]; rx_a[i] = st_a[i]; rx_b[i] = st_b[i]; }
    n_rx = n_st;
    rd_res = 1; rd_cut = 0;
}
static void put(int t, int a, int b) { CHECK(n_rx < NTK, "HARNESS-GAP message"); rx_t[n_rx] = t; rx_a[n_rx] = a; rx_b[n_rx] = a ? b : 0; n_rx++; }
static int is(const char *s, char id) { return s && s[0] == 'n' && s[1] == id && !s[2]; }
static req_t rq0, sv0;
static req_t *mkreq(req_t *r)
{
    r->sd = 5; r->fqdn = "h"; r->host = "h"; r->ip = "i";
    r->consoles = list_create(st_free);
    return r;
}
static char id[4];
static client_conf_t cc;
static req_t *rq, *sv;
static int m, f_cut;
/* SEL numbers the shapes of a message; within each, contents and results are arbitrary */
static int sel_of(int *s, int n) { int v = *s % n; *s /= n; return v; }
static void cut(int at)         /* 0: whole line; k: only the first k-1 tokens arrive, without a line end */
{
    f_cut = at > 0 && at - 1 <= n_rx;
    rd_cut = f_cut;
    if (f_cut) n_rx = at - 1; else put(LEX_EOL, 0, 0);
}
#if TEST == 1           /* the greeting, end to end. sel: terminal, overrun point, read result */
#define NSEL (2 * 4 * 3)
static void run(int sel)
{
    int tty = sel_of(&sel, 2), r;
    over_at = sel_of(&sel, 4);
    rd_res = sel_of(&sel, 3) - 1; rd_cut = 0;
    wfail = rd_res <= 0 ? nd_bool() : 0;
    rq->user = text(id[0]);
    rq->tty = tty ? text(id[1]) : NULL;
    n_rx = 0; put(CONMAN_TOK_OK, 0, 0); put(LEX_EOL, 0, 0);
    r = send_greeting(&cc);
    if (over || rd_res <= 0) {
        CHECK(r < 0 && cc.errnum != CONMAN_ERR_NONE, "a greeting that fails is reported");
        WITNESS(over, "greeting did not fit");
        return;
    }
    CHECK(r == 0 && n_sent == 1, "the greeting is sent");
    deliver();
    new_msg();
    r = recv_greeting(sv);
    CHECK(r == 0, "the greeting is accepted");
    CHECK(is(sv->user, id[0]), "the user arrives");
    CHECK(tty ? is(sv->tty, id[1]) : !sv->tty, "the terminal arrives");
    CHECK(n_sent == 1 && n_st == 2 && st_t[0] == CONMAN_TOK_OK, "the greeting is acknowledged");
    WITNESS(tty, "greeting with terminal");
}
#elif TEST == 2         /* the request, end to end. sel: the five options, or all with an overrun point */
#define NSEL (32 + 10)
static void run(int sel)
{
    int f, b, j, q, x, i, r;
    if (sel >= 32) { over_at = sel - 31; sel = 31; }
    rq->command = CMD;
    rq->enableForce = f = sel_of(&sel, 2); rq->enableBroadcast = b = sel_of(&sel, 2); rq->enableJoin = j = sel_of(&sel, 2);
    rq->enableQuiet = q = sel_of(&sel, 2); rq->enableRegex = x = sel_of(&sel, 2);
    rq->enableEcho = nd_bool(); rq->enableReset = 0;
    for (i = 0; i < NN; i++) list_append(rq->consoles, text(id[i]));
    wfail = over_at ? nd_bool() : 0;
    r = send_req(&cc);
    if (over || wfail) {
        CHECK(r < 0 && cc.errnum != CONMAN_ERR_NONE && cc.errmsg, "a request that cannot be sent is reported");
        WITNESS(over, "request did not fit");
        return;
    }
    CHECK(r == 0 && n_sent == 1, "the request is sent");
    deliver();
    new_msg();
    r = recv_req(sv);
    CHECK(r == 0, "the request is accepted");
    CHECK(sv->command == CMD, "the command arrives");
    CHECK(sv->enableQuiet == q && sv->enableRegex == x, "quiet and regex arrive");
    if (CMD == CONMAN_CMD_CONNECT) CHECK(sv->enableForce == f && sv->enableBroadcast == b && sv->enableJoin == j, "force, broadcast and join arrive");
    CHECK(list_count(sv->consoles) == NN, "as many names arrive");
    for (i = 0; i < NN; i++) CHECK(is(list_pop(sv->consoles), id[i]), "the names arrive in order");
    CHECK(!n_sent && !sv->enableReset, "nothing else happens");
    WITNESS(f && b && q && x && !j, "request with options");
}
#elif TEST == 3         /* any well-formed line with unknown parts, whole or cut short, to the daemon */
#define NCUT 13
#define NSEL (3 * (64 + NCUT) + 64)
static void run(int sel)
{
    int g, nn = 0, cmd = 0, k, want[3], bc = 0, fo = 0, jo = 0, qu = 0, re = 0, w[3], none, c = 0, r;
    none = 0;
    if (sel >= 3 * (64 + NCUT)) { sel -= 3 * (64 + NCUT); none = 1; k = 0; }
    else k = sel_of(&sel, 3);
    if (sel >= 64) { c = 1 + sel - 64; w[0] = k > 0; w[1] = 1; w[2] = 0; }
    else for (g = 0; g < 3; g++) w[g] = sel_of(&sel, 4);
    n_rx = 0;
    if (w[1] == 3) put(LEX_STR, 'z', 0);
    put(none ? LEX_STR : k == 0 ? CONMAN_TOK_CONNECT : k == 1 ? CONMAN_TOK_MONITOR : CONMAN_TOK_QUERY, 0, 0);
    cmd = k == 0 ? CONMAN_CMD_CONNECT : k == 1 ? CONMAN_CMD_MONITOR : CONMAN_CMD_QUERY;
    for (g = 0; g < 3; g++) {
        if (w[g] == 0) { put(CONMAN_TOK_CONSOLE, 0, 0); put('=', 0, 0); put(LEX_STR, 'e', id[g]); want[nn++] = g; }
        else if (w[g] == 1) {
            int t = none ? CONMAN_TOK_FORCE : nd_range(LEX_TOK_OFFSET, LEX_TOK_OFFSET + 17);
            put(CONMAN_TOK_OPTION, 0, 0); put('=', 0, 0); put(t, 0, 0);
            bc |= t == CONMAN_TOK_BROADCAST; fo |= t == CONMAN_TOK_FORCE; jo |= t == CONMAN_TOK_JOIN; qu |= t == CONMAN_TOK_QUIET; re |= t == CONMAN_TOK_REGEX;
        }
        else if (w[g] == 2) { put(LEX_STR, 'z', 0); put('=', 0, 0); put(LEX_STR, 'e', id[3]); }
        else put(LEX_STR, 'z', 0);
    }
    cut(c); rd_res = w[0] == 3 && w[1] == 2 ? w[2] % 2 - 1 : 1;
    r = recv_req(sv);
    if (rd_res <= 0 || f_cut) {
        CHECK(r < 0, "a request that is cut short is refused");
        WITNESS(f_cut && rd_res > 0, "cut short");
        return;
    }
    if (none) { CHECK(r < 0 || sv->command == CONMAN_CMD_NONE, "a line without a command is not acted upon"); return; }
    CHECK(r == 0 && sv->command == cmd, "the command is recognised");
    CHECK(sv->enableBroadcast == bc && sv->enableForce == fo && sv->enableJoin == jo && sv->enableQuiet == qu && sv->enableRegex == re, "exactly the given options are in effect");
    CHECK(list_count(sv->consoles) == nn, "exactly the given names");
    for (g = 0; g < 3; g++) if (g < nn) CHECK(is(list_pop(sv->consoles), id[want[g]]), "names in order");
    WITNESS(nn == 2 && fo, "request");
}
#elif TEST == 4         /* any greeting line to the daemon */
#define NCUT 11
#define NSEL (64 * 2 + NCUT)
static void run(int sel)
{
    int g, u = -1, t = -1, w[3], hello, c = 0, r;
    if (sel >= 128) { sel -= 128; c = 1 + sel; hello = 1; w[0] = w[2] = 0; w[1] = 1; }
    else { hello = sel_of(&sel, 2); for (g = 0; g < 3; g++) w[g] = sel_of(&sel, 4); }
    n_rx = 0;
    put(hello ? CONMAN_TOK_HELLO : LEX_STR, 0, 0);
    for (g = 0; g < 3; g++) {
        if (w[g] == 0) { put(CONMAN_TOK_USER, 0, 0); put('=', 0, 0); put(LEX_STR, 'e', id[g]); u = g; }
        else if (w[g] == 1) { put(CONMAN_TOK_TTY, 0, 0); put('=', 0, 0); put(LEX_STR, 'e', id[g]); t = g; }
        else if (w[g] == 2) { put(CONMAN_TOK_USER, 0, 0); put('=', 0, 0); put(LEX_STR, 0, 0); }
        else put(LEX_STR, 'z', 0);
    }
    if (!hello) u = t = -1;
    cut(c); rd_res = w[0] == 3 && w[1] == 3 ? w[2] % 2 - 1 : 1;
    r = recv_greeting(sv);
    if (rd_res <= 0 || f_cut) { CHECK(r < 0 && !(n_sent && st_t[0] == CONMAN_TOK_OK), "a greeting that is cut short is refused"); WITNESS(f_cut, "cut short"); return; }
    if (u < 0) { CHECK(r < 0 && n_sent == 1 && st_t[0] == CONMAN_TOK_ERROR, "a greeting without a user is refused with a reason"); WITNESS(1, "refused"); return; }
    CHECK(r == 0 && n_sent == 1 && st_t[0] == CONMAN_TOK_OK, "accepted");
    CHECK(is(sv->user, id[u]) && (t < 0 ? !sv->tty : is(sv->tty, id[t])), "user and terminal");
    WITNESS(t == 2, "accepted");
}
#elif TEST == 5         /* the daemon's answer, end to end. sel: accepted, reset, text or none, overrun or cut point */
#define NCUT 14
#define NSEL (7 + 2 + 4 + 2 * NCUT + 2 * 8)
static void run(int sel)
{
    int ok, rs, code, hm, c = 0, i, r;
    char *msg;
    static obj_t con0, con1, con2;
    obj_t *con[3] = { &con0, &con1, &con2 };
    code = 1 + sel % 7;
    if (sel < 7) { ok = 0; hm = rs = 1; }
    else if (sel < 13) { sel -= 7; ok = sel_of(&sel, 2); hm = rs = sel % 2; }
    else if (sel < 13 + 2 * NCUT) { sel -= 13; ok = sel_of(&sel, 2); c = 1 + sel; hm = rs = 1; }
    else { sel -= 13 + 2 * NCUT; ok = sel_of(&sel, 2); over_at = 1 + sel; hm = rs = 1; }
    msg = hm ? text(id[3]) : NULL;
    for (i = 0; i < NN; i++) {
        con[i]->type = CONMAN_OBJ_SERIAL; con[i]->name = text(id[i]);
        list_append(sv->consoles, con[i]);
    }
    sv->user = text(id[3]);
    sv->enableReset = rs;
    wfail = over_at ? nd_bool() : 0;
    r = ok ? send_rsp(sv, CONMAN_ERR_NONE, NULL) : send_rsp(sv, code, msg ? msg : "n");
    if (over || wfail) { CHECK(r < 0, "an answer that cannot be sent ends the request"); CHECK(!over || !n_sent, "nothing is sent in part"); return; }
    CHECK(r == 0 && n_sent == 1, "the answer is sent");
    for (i = 0; i < NN; i++) CHECK(is(con[i]->name, id[i]), "the daemon's console names are unaffected");
    CHECK(!msg || is(msg, id[3]), "the daemon's text is unaffected");
    deliver();
    new_msg();
    n_rx--;
    cut(c);
    r = recv_rsp(&cc);
    if (f_cut) { CHECK(r < 0 && cc.errnum != CONMAN_ERR_NONE && cc.errmsg, "an answer that is cut short is an error"); WITNESS(1, "cut short"); return; }
    CHECK((r == 0) == ok, "acceptance is acceptance and refusal is refusal");
    if (ok) {
        CHECK(list_count(rq->consoles) == NN, "as many consoles");
        for (i = 0; i < NN; i++) CHECK(is(list_pop(rq->consoles), id[i]), "the consoles in order");
        CHECK(rq->enableReset == (rs && NN > 0), "reset is enabled as the daemon said");
        CHECK(cc.errnum == CONMAN_ERR_NONE && !cc.errmsg, "no error");
        WITNESS(NN == 0 || rs, "accepted");
    } else {
        CHECK(cc.errnum == code, "the same error code");
        CHECK(msg ? is(cc.errmsg, id[3]) : (cc.errmsg && cc.errmsg[0] == 'n' && !cc.errmsg[1]), "the same text");
        CHECK(list_is_empty(rq->consoles) && !rq->enableReset, "nothing else");
        WITNESS(msg != NULL, "refused");
    }
}
#elif TEST == 6         /* any line to the client */
#define NCUT 12
#define NSEL (3 * 125 + 2 * NCUT)
static void run(int sel)
{
    int g, k, nn = 0, want[3], rs = 0, code = 0, txt = -1, w[3], c = 0, r;
    if (sel >= 375) { sel -= 375; k = sel_of(&sel, 2); c = 1 + sel; w[0] = k ? 2 : 0; w[1] = k ? 3 : 1; w[2] = 0; }
    else { k = sel_of(&sel, 3); for (g = 0; g < 3; g++) w[g] = sel_of(&sel, 5); }
    n_rx = 0;
    if (w[1] == 4) put(LEX_STR, 'z', 0);
    put(k == 0 ? CONMAN_TOK_OK : k == 1 ? CONMAN_TOK_ERROR : LEX_STR, 0, 0);
    for (g = 0; g < 3; g++) {
        if (w[g] == 0) { put(CONMAN_TOK_CONSOLE, 0, 0); put('=', 0, 0); put(LEX_STR, 'e', id[g]); want[nn++] = g; }
        else if (w[g] == 1) { int t = k ? CONMAN_TOK_RESET : nd_range(LEX_TOK_OFFSET, LEX_TOK_OFFSET + 17); put(CONMAN_TOK_OPTION, 0, 0); put('=', 0, 0); put(t, 0, 0); rs |= t == CONMAN_TOK_RESET; }
        else if (w[g] == 2) { int d = nd_range(0, 9); put(CONMAN_TOK_CODE, 0, 0); put('=', 0, 0); put(LEX_INT, '0' + d, 0); code = d; }
        else if (w[g] == 3) { put(CONMAN_TOK_MESSAGE, 0, 0); put('=', 0, 0); put(LEX_STR, 'e', id[g]); txt = g; }
        else put(g == 1 ? LEX_ERR : LEX_STR, 'z', 0);
    }
    cut(c); rd_res = w[0] == 4 && w[1] == 4 && w[2] < 2 ? w[2] - 1 : 1;
    r = recv_rsp(&cc);
    if (rd_res <= 0 || f_cut || k == 2) { CHECK(r < 0 && cc.errnum != CONMAN_ERR_NONE && cc.errmsg, "anything else is an error"); WITNESS(f_cut && rd_res > 0, "cut short"); return; }
    if (k == 0) {
        CHECK(r == 0 && list_count(rq->consoles) == nn && rq->enableReset == rs, "accepted as given");
        for (g = 0; g < 3; g++) if (g < nn) CHECK(is(list_pop(rq->consoles), id[want[g]]), "consoles in order");
        WITNESS(nn == 2 && rs, "accepted");
    } else {
        CHECK(r < 0 && cc.errnum != CONMAN_ERR_NONE, "refused");
        if (code) CHECK(cc.errnum == code, "with the given code");
        if (txt >= 0 && code) CHECK(is(cc.errmsg, id[txt]), "with the given text");
        CHECK(list_is_empty(rq->consoles) && !rq->enableReset, "nothing else");
        WITNESS(code && txt >= 0, "refused");
    }
}
#endif
#ifndef LO
#define LO 0
#define HI NSEL
#endif
int main(void)
{
    int i, s, hi = HI < NSEL ? HI : NSEL;
    rq = mkreq(&rq0); sv = mkreq(&sv0);
    cc.req = rq;
    fd_open[5] = 1;
    for (i = 0; i < 4; i++) { id[i] = nd_u8(); ASSUME(id[i]); }
    s = nd_range(LO, hi - 1);
    for (i = LO; i < hi; i++)
        if (s == i) {
            run(i);
            CHECK(lexes == 0, "the lexer is released");
#ifdef REPLAY
            return 0;
#else
            ASSUME(0);
#endif
        }
    return 0;
}
