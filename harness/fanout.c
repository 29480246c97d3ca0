/* C02: what one read from a console does. Real code: read_from_obj, write_reader_data,
 * link_objs (server-obj.c). NR readers in every state, one of them possibly a log. */
#include "objkit.h"
#ifndef NR
#define NR 3
#endif
#define LEN 4
static obj_t *K, *R[NR], *X, *XK;
static req_t rq[NR + 1];
static aux_obj_t zero_aux;
static server_conf_t conf;
static unsigned char data[LEN], got[NR][LEN];
static int n_got[NR], ln[NR], to_other, to_info, to_con, n_reopen, setup = 1, log_i = LOGI, rd, calls, eintr, by_log, nread_calls;
char *create_string(const char *s) { return s ? strdup(s) : NULL; }
char *create_short_time_string(time_t t) { return strdup("t"); }
int st_snprintf(char *b, size_t n, const char *f, ...) { b[0] = 'm'; b[1] = 0; return 1; }
static int deliver(obj_t *o, const void *src, int len, int isInfo, int log)
{
    int i, j;
    if (setup) return len;
    if (!src || len <= 0) return 0;
    if (isInfo) { to_info++; return 0; }
    for (i = 0; i < NR; i++) if (o == R[i]) {
        if (o->gotEOF) return 0;
        if (i == log_i && !log && n_got[i]) by_log++;
        CHECK(len <= LEN && n_got[i] + len <= LEN, "no reader gets more than was read");
        for (j = 0; j < LEN; j++) if (j < len) got[i][n_got[i] + j] = ((const unsigned char *) src)[j];
        n_got[i] += len;
        return len;
    }
    to_other++;
    return len;
}
int write_obj_data(obj_t *o, const void *src, int len, int isInfo) { return deliver(o, src, len, isInfo, 0); }
static int log_calls;
int write_log_data(obj_t *o, const void *src, int len) { log_calls++; CHECK(o == R[LOGI < 0 ? 0 : LOGI] && LOGI >= 0, "only a log is written as a log"); return deliver(o, src, len, 0, 1); }
void notify_console_objs(obj_t *c, char *m) { }
int open_serial_obj(obj_t *o) { n_reopen++; return 0; }
int open_process_obj(obj_t *o) { n_reopen++; return 0; }
int open_unixsock_obj(obj_t *o) { n_reopen++; return 0; }
int open_telnet_obj(obj_t *o) { n_reopen++; return 0; }
int process_telnet_escapes(obj_t *o, void *s, int n) { return n; }
ssize_t st_read(int fd, void *buf, size_t n)
{
    int i;
    CHECK(fd == K->fd && n >= LEN, "reads from the console");
    nread_calls++;
    ASSUME(nread_calls <= 3);
    if (nread_calls < 3 && nd_bool()) { errno = EINTR; eintr++; return -1; }
    if (rd > 0) { for (i = 0; i < LEN; i++) if (i < rd) ((unsigned char *) buf)[i] = data[i]; return rd; }
    if (rd == -1) { errno = EAGAIN; return -1; }
    if (rd == -2) { errno = EWOULDBLOCK; return -1; }
    if (rd == -3) { errno = EIO; return -1; }
    return 0;
}
int main(void)
{
    int i, j, rv, exp;
    for (i = 3; i < 11; i++) fd_open[i] = 1;
    K = create_obj(&conf, "k", 3, KTYPE);
    K->aux = zero_aux;
#if KTYPE_TELNET
    K->aux.telnet.state = CONMAN_TELNET_UP;
#endif
    XK = create_obj(&conf, "xk", 9, CONMAN_OBJ_SERIAL);
    XK->aux = zero_aux;
    for (i = 0; i <= NR; i++) { rq[i].user = rq[i].host = rq[i].fqdn = "u"; }
    for (i = 0; i < NR; i++) {
        R[i] = create_obj(&conf, "r", 4 + i, i == LOGI ? CONMAN_OBJ_LOGFILE : CONMAN_OBJ_CLIENT);
        R[i]->aux = zero_aux;
        if (i != LOGI) R[i]->aux.client.req = &rq[i];
        else R[i]->aux.logfile.console = K;
        link_objs(K, R[i]);
    }
    X = create_obj(&conf, "x", 8, CONMAN_OBJ_CLIENT);
    X->aux = zero_aux;
    X->aux.client.req = &rq[NR];
    link_objs(XK, X); link_objs(X, XK);
    if (RWC >= 0) link_objs(R[RWC], K);               /* that reader also writes to it */
    if (BC) { rq[NR].enableBroadcast = 1; link_objs(X, K); }    /* another one writes without reading */
    ev_armed[3] = POLLIN;
    for (i = 0; i < NR; i++) {
        R[i]->gotEOF = nd_bool();
        if (i != LOGI) { R[i]->aux.client.gotSuspend = nd_bool(); rq[i].enableQuiet = nd_bool(); }
        else R[i]->fd = nd_bool() ? -1 : R[i]->fd;
    }
    for (i = 0; i < LEN; i++) data[i] = nd_u8();
    rd = nd_range(-3, LEN);
    setup = 0;
    rv = read_from_obj(K);
    CHECK(!to_other && !to_info, "nobody else is shown the output");
    exp = rd > 0 ? rd : 0;
    for (i = 0; i < NR; i++) if (!R[i]->gotEOF) {
        CHECK(n_got[i] == exp, "each attached reader gets the whole chunk once");
        for (j = 0; j < LEN; j++) if (j < exp) CHECK(got[i][j] == data[j], "the chunk is unchanged");
        if (i == LOGI && exp) CHECK(log_calls == 1, "the log is written once, as a log");
    }
    CHECK(rv >= 0, "the console is never removed");
    if (rd > 0 || rd == -1 || rd == -2) {
        CHECK(K->fd == 3 && fd_open[3] && !K->gotEOF && !n_reopen, "the console stays connected");
        CHECK(ev_armed[3] & POLLIN, "the console is still read from");
    } else {
        CHECK(K->fd == -1 && !fd_open[3] && n_reopen == 1 && fd_closes[3] == 1, "a lost console is closed once and re-opened");
        CHECK(ev_armed[3] == 0, "its descriptor is no longer watched");
    }
    for (i = 4; i < 11; i++) CHECK(fd_open[i], "nobody else is disconnected");
    for (i = 0; i < NR; i++) CHECK(list_find_first(K->readers, (ListFindF) find_obj, R[i]) != NULL, "readers stay attached");
    WITNESS(exp == LEN && eintr == 2, "whole chunk after interruptions");
    WITNESS(n_reopen, "console lost");
    return 0;
}
