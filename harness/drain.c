/* C09: a displaced or hung-up client is drained and then disconnected. Real code:
 * read_from_obj, write_to_obj, write_obj_data, link_objs, unlink_objs, shutdown_obj
 * (server-obj.c), process_client_escapes (server-esc.c). */
#include "objkit.h"
#ifndef ROUNDS
#define ROUNDS 3
#endif
static obj_t *K, *C, *D;
static req_t *rq[2];
static server_conf_t conf;
static unsigned char rd[2]; static int rd_n;
static unsigned char want[PEND + 1];
static int n_got, n_err, stuck, rv, kicked;
char *create_string(const char *s) { return s ? strdup(s) : NULL; }
char *create_short_time_string(time_t t) { return strdup("t"); }
char *create_format_string(const char *f, ...) { return strdup("q"); }
int st_snprintf(char *b, size_t n, const char *f, ...) { b[0] = 'm'; b[1] = 0; return 1; }
void notify_console_objs(obj_t *c, char *m) { }
void destroy_req(req_t *q) { }
int st_tcsendbreak(int fd, int d) { return 0; }
int st_open(const char *p, int f, ...) { return -1; }
time_t st_time(time_t *t) { if (t) *t = 1000; return 1000; }
ssize_t st_read(int fd, void *buf, size_t n)
{
    CHECK(fd == 5, "only the client is read");
    if (rd_n == 2) { ((unsigned char *) buf)[0] = rd[0]; ((unsigned char *) buf)[1] = rd[1]; }
    if (rd_n < 0) errno = EAGAIN;
    return rd_n;
}
ssize_t st_writev(int fd, const struct iovec *v, int cnt)
{
    int i, k, n = 0, r = nd_range(-2, 3), tot = 0;
    CHECK(fd == 5 && fd_open[5], "only the client is written to");
    for (i = 0; i < cnt; i++) tot += (int) v[i].iov_len;
    if (r == -2) { errno = EPIPE; n_err++; return -1; }
    if (r == -1) { errno = EAGAIN; stuck++; return -1; }
    if (r > tot) r = tot;
    if (r == 0) stuck++;
    for (i = 0; i < 2; i++) for (k = 0; k < OBJ_BUF_SIZE; k++)
        if (i < cnt && k < (int) v[i].iov_len && n < r) {
            CHECK(n_got < PEND, "nothing is added once it is on its way out");
            if (n_got < PEND) CHECK(((unsigned char *) v[i].iov_base)[k] == want[n_got], "queued output is delivered in order");
            n_got++; n++;
        }
    return r;
}
static void round_(int act)
{
    if (act == 0) {                     /* the socket is writable */
        CHECK(ev_armed[5] & POLLOUT, "a client on its way out is always waiting for its socket to become writable");
        rv = write_to_obj(C);
        if (rv < 0) CHECK(n_got == PEND || n_err, "it is disconnected only when drained or broken");
        else CHECK(n_got < PEND && !n_err, "it is disconnected as soon as it is drained or broken");
    } else if (act == 1) {              /* it keeps on sending */
        ASSUME(ev_armed[5] & POLLIN);
        rd_n = 2; rd[0] = 0xFF; rd[1] = nd_u8(); 
        rv = read_from_obj(C);
        CHECK(rv >= 0, "sending does not remove it");
    } else if (act == 2) {              /* it hangs up (again) */
        rd_n = 0;
        rv = read_from_obj(C);
        CHECK((rv < 0) == (n_got == PEND), "a hang-up removes it once drained");
    } else {                            /* the console talks */
        rd[0] = 'x';
        write_reader_data(K, rd, 1);
        write_obj_data(C, "i", 1, 1);
    }
    if (rv < 0) CHECK(C->fd == -1 && fd_closes[5] == 1, "its connection is closed once");
    else CHECK(C->gotEOF && (ev_armed[5] & POLLOUT) && fd_open[5], "it stays on its way out");
}
int main(void)
{
    int i, a, k; unsigned char *base;
    fd_open[3] = fd_open[5] = fd_open[6] = 1;
    K = create_obj(&conf, "k", 3, CONMAN_OBJ_SERIAL);
    C = create_obj(&conf, "c", 5, CONMAN_OBJ_CLIENT);
    base = C->bufInPtr;
    D = create_obj(&conf, "d", 6, CONMAN_OBJ_CLIENT);
    for (i = 0; i < 2; i++) {
        rq[i] = calloc(1, sizeof(req_t));
        rq[i]->user = rq[i]->host = rq[i]->fqdn = "u";
        (i ? D : C)->aux.client.req = rq[i];
        (i ? D : C)->aux.client.gotSuspend = 0;
        (i ? D : C)->aux.client.gotEscape = 0;
        ev_armed[5 + i] = POLLIN;
    }
    rq[1]->enableForce = 1; rq[1]->enableQuiet = 1;
    link_objs(K, D);
    if (!BC) link_objs(K, C);
    rq[0]->enableBroadcast = BC;
    rq[0]->enableJoin = 1;
    if (BC || RW) link_objs(C, K);
    for (i = 0; i < OFF; i++) { write_obj_data(C, "o", 1, 0); C->bufOutPtr = C->bufInPtr; }
    for (i = 0; i < PEND; i++) want[i] = nd_u8();
    if (PEND) write_obj_data(C, want, PEND, 0);
    else ev_armed[5] &= ~POLLOUT;       /* as after the last flush */
    rq[0]->enableQuiet = nd_bool();
#if STEP == 0
    /* entering: from any state of the client */
    if (nd_bool()) { rd_n = 2; rd[0] = 0xFF; rd[1] = ESC_CHAR_SUSPEND; read_from_obj(C); }
    if (CAUSE == 0) { rd_n = 0; rv = read_from_obj(C); }
    else { link_objs(D, K); CHECK(BC || RW, "harness"); }
#if CAUSE == 0 && PEND == 0
    CHECK(rv < 0 && C->fd == -1 && fd_closes[5] == 1, "nothing pending: disconnected at once");
    WITNESS(rq[0]->enableQuiet, "hang-up");
    return 0;
#else
    CHECK(C->gotEOF && (ev_armed[5] & POLLOUT) && fd_open[5], "a client on its way out waits for its socket to become writable");
    CHECK(!C->aux.client.gotSuspend, "a client on its way out is not suspended");
    CHECK(CAUSE == 0 || (list_is_empty(C->readers) && list_is_empty(C->writers)), "a displaced client is attached to nothing");
    if (nd_bool()) { rd[0] = 'x'; write_reader_data(K, rd, 1); write_obj_data(C, "i", 1, 1); }
    { unsigned char *b = C->bufOutPtr; int j; for (j = 0; j < PEND; j++) { CHECK(*b == want[j], "what was queued stays queued"); b++; if (b == base + OBJ_BUF_SIZE) b = base; } CHECK(b == C->bufInPtr, "nothing more is queued"); }
    WITNESS(rq[0]->enableQuiet, "quiet");
#endif
#else
    /* on its way out: any event leaves it so, or removes it */
    if (CAUSE == 0) { tpoll_clear(0, 5, POLLIN); C->gotEOF = 1; }
    else { unlink_obj(C); }
    C->gotEOF = 1; C->aux.client.gotSuspend = 0; ev_armed[5] |= POLLOUT;
    C->aux.client.gotEscape = nd_bool();
    a = nd_range(0, 3);
    for (k = 0; k < 4; k++) if (a == k) {
        round_(k);
        if (rv >= 0) CHECK(!C->aux.client.gotSuspend, "a client on its way out is not suspended");
        WITNESS(rv < 0 && n_got == PEND, "drained and removed");
        WITNESS(rv >= 0 && stuck || PEND == 0, "slow");
#ifndef REPLAY
        ASSUME(0);
#else
        return 0;
#endif
    }
#endif
    return 0;
}
