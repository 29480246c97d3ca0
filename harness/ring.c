/* C01: a FIFO that loses only its oldest bytes. Real code: create_obj, write_obj_data,
 * write_to_obj. The environment is writev with an arbitrary result per call.
 * Byte number i of the queued stream has value salt+i, salt symbolic. */
#include "objkit.h"
#define CAP (OBJ_BUF_SIZE - 1)
#ifndef NOPS
#define NOPS 5
#endif
static unsigned char salt;
static int q_tot;               /* bytes queued */
static int q_out;               /* number of the next byte that must be delivered */
static int n_drop, n_wrap, n_eintr;
static int in_flush, n_calls;

ssize_t st_writev(int fd, const struct iovec *iov, int cnt)
{
    int i, total = 0, n, l0;
    CHECK(in_flush, "queueing must not perform output");
    CHECK(fd == 5, "output goes to the object's own descriptor");
    CHECK(cnt >= 1 && cnt <= 2, "vector count");
    l0 = (int) iov[0].iov_len;
    total = l0 + (cnt == 2 ? (int) iov[1].iov_len : 0);
    CHECK(total == q_tot - q_out, "everything pending is offered to the kernel");
    n_calls++;
    if (n_calls == 1 && nd_bool()) { n_eintr++; errno = EINTR; return -1; }  /* <= 1 interruption per flush */
    if (nd_bool()) { errno = nd_bool() ? EAGAIN : EWOULDBLOCK; return -1; }
    n = nd_range(0, CAP);
    ASSUME(n <= total);
    for (i = 0; i < CAP; i++)
        if (i < n) {
            unsigned char c = i < l0 ? ((unsigned char *) iov[0].iov_base)[i]
                                     : ((unsigned char *) iov[1].iov_base)[i - l0];
            CHECK(c == (unsigned char) (salt + q_out + i), "delivered bytes are the queued bytes in order");
        }
    q_out += n;
    if (cnt == 2 && n == total) n_wrap = 1;
    return n;
}

int main(void)
{
    server_conf_t conf;
    req_t req;
    obj_t *o;
    int i;
    memset(&req, 0, sizeof(req));
    fd_open[5] = 1;
    o = create_obj(&conf, "x", 5, OTYPE);
    memset(&o->aux, 0, sizeof(o->aux));
    if (OTYPE == CONMAN_OBJ_CLIENT) o->aux.client.req = &req;
    if (OTYPE == CONMAN_OBJ_TELNET) { o->aux.telnet.state = CONMAN_TELNET_UP; o->aux.telnet.iac = -1; }
    salt = nd_u8();

    for (i = 0; i < NOPS; i++) {
        if (i == 0 || nd_bool()) {
            unsigned char b[CAP];
            int j, n = nd_range(1, CAP), r;
            for (j = 0; j < CAP; j++) b[j] = salt + q_tot + j;
            r = write_obj_data(o, b, n, 0);
            CHECK(r == n, "the whole chunk is accepted");
            q_tot += n;
            if (q_tot - q_out > CAP) { q_out = q_tot - CAP; n_drop = 1; }
            CHECK(ev_armed[5] & POLLOUT, "output readiness is awaited after queueing");
        } else {
            int r;
            in_flush = 1; n_calls = 0;
            r = write_to_obj(o);
            in_flush = 0;
            CHECK(r == 0, "object stays alive");
            CHECK(!!(ev_armed[5] & POLLOUT) == (q_out < q_tot), "output readiness is awaited exactly while bytes are pending");
        }
        obj_guard(o);
        CHECK(fd_open[5], "descriptor stays open");
    }
    WITNESS(n_drop && n_wrap && q_out == q_tot && n_eintr, "overflowed, wrapped, interrupted and drained");
    return 0;
}
