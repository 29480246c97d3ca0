/* C23: the log-replay command. Real code: server-esc.c (perform_log_replay), server-obj.c
 * (write_obj_data, write_to_obj, shutdown_obj, get_console_logfile_obj).
 * SZ=0: scaled buffers, a history of queueing, flushing and a failing write, contents compared.
 * SZ=1: real sizes, one replay from every buffer position; copies are intercepted and one
 * arbitrary byte of the answer is followed. */
#include "objkit.h"
#include <stdio.h>
int real_write_obj_data(obj_t *obj, const void *src, int len, int isInfo);

/* the code forms (but does not use) pointers up to one buffer length before and after the buffer */
#ifdef REPLAY
void *rp_malloc(size_t n) { return malloc(n); }
void *rp_calloc(size_t a, size_t b) { return calloc(a, b); }
#define BUF(o) ((o)->buf)
#else
void *rp_malloc(size_t n)
{
    void *p = malloc(n);
    if (n == sizeof(obj_t)) ((obj_t *) p)->bufp = (void *) ((unsigned char *) malloc(3 * OBJ_BUF_SIZE) + OBJ_BUF_SIZE);
    return p;
}
void *rp_calloc(size_t a, size_t b)
{
    void *p = malloc(a * b);
    memset(p, 0, a * b);
    if (a * b == sizeof(obj_t)) ((obj_t *) p)->bufp = (void *) ((unsigned char *) malloc(3 * OBJ_BUF_SIZE) + OBJ_BUF_SIZE);
    return p;
}
#define BUF(o) ((unsigned char *) (o)->bufp)
#endif
static obj_t *con, *log, *cli, *oth;
static int hdr = 3, ftr = 1, n_fmt;
static int replaying, n_out;
static int k_out;               /* replayed bytes expected */
static unsigned char salt;
static int tot;                 /* bytes logged since the log was last reset */
static int pend;                /* of these, not yet written out */
static int in0;
static const unsigned char *ansbuf;

/* a message of hdr or ftr bytes; the second is 2 shorter, as "End" is than "Begin" */
int st_snprintf(char *p, size_t size, const char *fmt, ...)
{
    int n = n_fmt++ ? ftr : hdr, i;
    if (n_fmt == 1) ansbuf = (unsigned char *) p;
#if SZ == 0
    for (i = 0; i < 4; i++) if (i < n && i + 1 < (int) size) p[i] = 'm';
#endif
    if (n < (int) size) p[n] = 0; else if (size) p[size - 1] = 0;
    return n;
}
#if SZ == 1
static int cp_dst[2], cp_src[2], cp_n[2], n_cp;
void *st_memcpy(void *dst, const void *src, size_t n)
{
    long so = (const unsigned char *) src - BUF(log);
    CHECK(so >= 0 && so + (long) n <= OBJ_BUF_SIZE, "the replay reads only the log's buffer");
    CHECK(n_cp < 2, "at most two copies");
    if (n_cp < 2) { cp_dst[n_cp] = (unsigned char *) dst - ansbuf; cp_src[n_cp] = so; cp_n[n_cp] = n; }
    CHECK((unsigned char *) dst - ansbuf >= 0 && (unsigned char *) dst - ansbuf + (long) n <= OBJ_BUF_SIZE - 1, "the replay stays within its own buffer");
    n_cp++;
#ifdef REPLAY
    memcpy(dst, src, n);
#endif
    return dst;
}
#define memcpy st_memcpy
#endif
#define snprintf st_snprintf
#include "server-esc.c"
#undef snprintf
#undef memcpy

int write_obj_data(obj_t *o, const void *src, int len, int isInfo)
{
    const unsigned char *p = src;
    int i;
    if (!replaying) return real_write_obj_data(o, src, len, isInfo);
    CHECK(o == cli, "the replay goes to the requesting client only");
    CHECK(!isInfo, "the replay is shown in quiet mode too");
    n_out++;
    CHECK(len == hdr + k_out + ftr, "the answer is a header, the replayed bytes and a trailer");
#if SZ == 0
    for (i = 0; i < LOG_REPLAY_LEN; i++)
        if (i < k_out) CHECK(p[hdr + i] == (unsigned char) (salt + tot - k_out + i), "the most recently logged bytes are replayed in order");
#else
    if (k_out > 0) {
        int w = nd_range(0, LOG_REPLAY_LEN - 1), c, hit = 0;
        ASSUME(w < k_out);
        for (c = 0; c < 2; c++)
            if (c < n_cp && hdr + w >= cp_dst[c] && hdr + w < cp_dst[c] + cp_n[c]) {
                int want = in0 - k_out + w;
                if (want < 0) want += OBJ_BUF_SIZE;
                hit++;
                CHECK(cp_src[c] + (hdr + w - cp_dst[c]) == want, "the most recently logged bytes are replayed in order");
            }
        CHECK(hit == 1, "every replayed byte comes from the log");
    }
#endif
    return len;
}
void notify_console_objs(obj_t *console, char *msg) { CHECK(!replaying, "nobody else is told"); }
#if SZ == 0
ssize_t st_writev(int fd, const struct iovec *iov, int cnt)
{
    int n, l = (int) iov[0].iov_len + (cnt == 2 ? (int) iov[1].iov_len : 0);
    CHECK(!replaying, "a replay writes nothing");
    if (nd_bool()) { errno = EIO; return -1; }
    n = nd_range(0, OBJ_BUF_SIZE - 1);
    ASSUME(n <= l);
    pend -= n;
    return n;
}
#endif
static void put(obj_t *o, obj_t *w)
{
    list_append(o->writers, w);
    list_append(w->readers, o);
}
int main(void)
{
    static server_conf_t conf;
    static req_t req, req2;
    unsigned char *lin, *lout;
    int i, w, has = nd_bool(), bc = nd_bool(), lw;
    fd_open[5] = fd_open[6] = fd_open[7] = fd_open[8] = 1;
    con = create_obj(&conf, "c", 6, CONMAN_OBJ_SERIAL);
    cli = create_obj(&conf, "u", 7, CONMAN_OBJ_CLIENT);
    oth = create_obj(&conf, "v", 8, CONMAN_OBJ_CLIENT);
    log = create_obj(&conf, "/l", 5, CONMAN_OBJ_LOGFILE);
    memset(&con->aux, 0, sizeof(con->aux)); memset(&cli->aux, 0, sizeof(cli->aux));
    memset(&oth->aux, 0, sizeof(oth->aux)); memset(&log->aux, 0, sizeof(log->aux));
    cli->aux.client.req = &req; oth->aux.client.req = &req2;
    req.enableQuiet = nd_bool();
    log->aux.logfile.console = con;
    if (has) con->aux.serial.logfile = log;
    if (!bc) put(cli, con);             /* con -> cli: the client shows this console */
    put(oth, con);
    salt = nd_u8();
#if SZ == 0
    for (i = 0; i < NOPS; i++) {
        unsigned char b[OBJ_BUF_SIZE - 1];
        int j, n = nd_range(1, OBJ_BUF_SIZE - 1), r;
        for (j = 0; j < OBJ_BUF_SIZE - 1; j++) b[j] = salt + tot + j;
        r = write_obj_data(log, b, n, 0);
        CHECK(r == n, "logged output is accepted");
        tot += n; pend += n;
        if (pend > OBJ_BUF_SIZE - 1) pend = OBJ_BUF_SIZE - 1;
        if (i == FLUSHAT) {
            write_to_obj(log);
            if (log->fd < 0) {          /* the write failed: the log is empty until reopened */
                WITNESS(FLUSHAT == 0 || tot > OBJ_BUF_SIZE, "the log failed after wrapping");
                fd_open[5] = 1; log->fd = 5; tot = pend = 0;
            }
        }
    }
    w = tot >= OBJ_BUF_SIZE;
    k_out = tot < LOG_REPLAY_LEN ? tot : LOG_REPLAY_LEN;
    hdr = 3; ftr = 1;
#else
    in0 = nd_range(0, OBJ_BUF_SIZE - 1);
    i = nd_range(0, OBJ_BUF_SIZE - 1);
    w = nd_bool();
    ASSUME(w || i <= in0);
    log->bufInPtr = BUF(log) + in0; log->bufOutPtr = BUF(log) + i; log->gotBufWrap = w;
    k_out = w || in0 > LOG_REPLAY_LEN ? LOG_REPLAY_LEN : in0;
    hdr = 60 + nd_range(0, 1100); ftr = hdr - 2;
    n_cp = 0;
#endif
    if (!has) { k_out = 0; ftr = 0; }
    lin = log->bufInPtr; lout = log->bufOutPtr; lw = log->gotBufWrap;
    replaying = 1;
    perform_log_replay(cli);
    replaying = 0;
    CHECK(n_out == !bc, "one answer, and none for a broadcast session");
    CHECK(log->bufInPtr == lin && log->bufOutPtr == lout && log->gotBufWrap == lw, "what is still to be written to the log is unaffected");
    CHECK(oth->bufInPtr == oth->bufOutPtr && con->bufInPtr == con->bufOutPtr, "nobody else receives anything");
    CHECK(log->fd == 5 && fd_open[5], "the log stays open");
#if SZ == 0
    WITNESS(has && !bc && k_out == LOG_REPLAY_LEN && lin < BUF(log) + 2, "replay across the wrap");
    WITNESS(!has && !bc, "not logged");
#if FLUSHAT == NOPS - 1
    WITNESS(has && !bc && k_out == 0, "nothing logged yet");
#endif
#else
    WITNESS(has && !bc && w && in0 < 100, "replay across the wrap");
    WITNESS(has && !bc && !w && k_out == 0, "nothing logged yet");
#endif
    return 0;
}
