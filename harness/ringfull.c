/* C01 at the real buffer size, as an induction step: from an arbitrary valid buffer state
 * (any fill level, any wrap position), one queue operation and then one flush. Together with
 * the initial empty state this covers every history. The copies into the object's buffer are
 * intercepted and one arbitrary pending or new byte (number W in the stream) is followed;
 * contents are not stored. Natively the real memcpy runs and every byte is compared. */
#include "objkit.h"
#define CAP (OBJ_BUF_SIZE - 1)
static unsigned char chunk[OBJ_BUF_SIZE];
static obj_t *o;
static int q_tot, q_out, in_flush, n_calls, wrote, drain_all;
static int W, w_off, w_live;

#ifdef REPLAY
#define BUF(o) ((o)->buf)
void *full_malloc(size_t n) { return malloc(n); }
void *st_memcpy(void *dst, const void *src, size_t n) { return memcpy(dst, src, n); }
#else
static unsigned char bigbuf[2 * OBJ_BUF_SIZE];
#define BUF(o) bigbuf
void *full_malloc(size_t n)
{
    obj_t *p = malloc(n);
    p->bufp = (void *) bigbuf;
    return p;
}
void *st_memcpy(void *dst, const void *src, size_t n)
{
    long d, so;
    CHECK(__CPROVER_same_object(dst, bigbuf) && __CPROVER_same_object(src, chunk), "copies go from the chunk into the buffer");
    d = (unsigned char *) dst - bigbuf;
    so = (const unsigned char *) src - chunk;
    CHECK(n <= OBJ_BUF_SIZE && d >= 0 && d + (long) n <= OBJ_BUF_SIZE, "no write outside the buffer");
    CHECK(so >= 0 && so + (long) n <= OBJ_BUF_SIZE, "no read outside the chunk");
    if (W >= q_tot + so && W < q_tot + so + (long) n) { w_live = 1; w_off = d + (W - q_tot - so); }
    else if (w_live && w_off >= d && w_off < d + (long) n) w_live = 0;
    return dst;
}
#endif

ssize_t st_writev(int fd, const struct iovec *iov, int cnt)
{
    int total, n, l0;
    CHECK(in_flush, "queueing must not perform output");
    CHECK(cnt >= 1 && cnt <= 2, "vector count");
    CHECK(iov[0].iov_len <= CAP && (cnt < 2 || iov[1].iov_len <= CAP), "vector lengths");
    l0 = (int) iov[0].iov_len;
    total = l0 + (cnt == 2 ? (int) iov[1].iov_len : 0);
    CHECK(total == q_tot - q_out, "everything pending is offered to the kernel");
    n_calls++;
    if (n_calls == 1 && nd_bool()) { errno = EINTR; return -1; }
    if (!drain_all && nd_bool()) { errno = EAGAIN; return -1; }
    if (drain_all) n = total; else
    n = nd_range(0, CAP);
    ASSUME(n <= total);
#ifdef REPLAY
    {
        int i;
        for (i = 0; i < n; i++) {
            unsigned char c = i < l0 ? ((unsigned char *) iov[0].iov_base)[i] : ((unsigned char *) iov[1].iov_base)[i - l0];
            CHECK(c == (unsigned char) ((q_out + i) % 251), "delivered bytes are the queued bytes in order");
        }
    }
#else
    {
        long b0 = (unsigned char *) iov[0].iov_base - bigbuf, b1 = cnt == 2 ? (unsigned char *) iov[1].iov_base - bigbuf : 0;
        CHECK(b0 >= 0 && b0 + l0 <= OBJ_BUF_SIZE, "no read outside the buffer");
        CHECK(cnt < 2 || (b1 >= 0 && b1 + (long) iov[1].iov_len <= OBJ_BUF_SIZE), "no read outside the buffer");
        if (W >= q_out && W < q_out + n) {
            int k = W - q_out;
            long at = k < l0 ? b0 + k : b1 + (k - l0);
            CHECK(w_live && w_off == at, "delivered bytes are the queued bytes in order");
        }
    }
#endif
    q_out += n;
    wrote = n;
    return n;
}

int main(void)
{
    server_conf_t conf;
    int in, out, pend, n, r;
    fd_open[5] = 1;
    o = create_obj(&conf, "x", 5, CONMAN_OBJ_SERIAL);
    memset(&o->aux, 0, sizeof(o->aux));
    in = nd_range(0, CAP); out = nd_range(0, CAP);
    o->bufInPtr = BUF(o) + in; o->bufOutPtr = BUF(o) + out;
    pend = in >= out ? in - out : in + OBJ_BUF_SIZE - out;
    q_out = 0; q_tot = pend;
    W = nd_range(0, 2 * OBJ_BUF_SIZE);
    if (W < pend) { w_live = 1; w_off = out + W < OBJ_BUF_SIZE ? out + W : out + W - OBJ_BUF_SIZE; }
#ifdef REPLAY
    { int i; for (i = 0; i < pend; i++) BUF(o)[(out + i) % OBJ_BUF_SIZE] = i % 251; }
#endif
    if (pend) ev_armed[5] = POLLOUT;
#if OP == 0
    {
        n = nd_range(1, CAP);
#ifdef REPLAY
        { int j; for (j = 0; j < n; j++) chunk[j] = (q_tot + j) % 251; }
#endif
        r = write_obj_data(o, chunk, n, 0);
        CHECK(r == n, "the whole chunk is accepted");
        q_tot += n;
        if (q_tot - q_out > CAP) q_out = q_tot - CAP;
        CHECK(ev_armed[5] & POLLOUT, "output readiness is awaited after queueing");
        /* the byte followed is where a later flush will look for it */
        CHECK(o->bufInPtr >= BUF(o) && o->bufInPtr < BUF(o) + OBJ_BUF_SIZE
              && o->bufOutPtr >= BUF(o) && o->bufOutPtr < BUF(o) + OBJ_BUF_SIZE, "buffer positions stay valid");
#ifndef REPLAY
        in = o->bufInPtr - BUF(o); out = o->bufOutPtr - BUF(o);
        pend = in >= out ? in - out : in + OBJ_BUF_SIZE - out;
        CHECK(pend == q_tot - q_out, "exactly the newest bytes that fit are retained");
        if (W >= q_out && W < q_tot)
            CHECK(w_live && w_off == (out + (W - q_out) < OBJ_BUF_SIZE ? out + (W - q_out) : out + (W - q_out) - OBJ_BUF_SIZE),
                  "retained bytes are in queue order");
        WITNESS(q_out > 0 && w_off < 5, "overwrote the oldest bytes across the wrap");
#else
        in_flush = 1; n_calls = 1; drain_all = 1;
        { int k; for (k = 0; k < 4 && q_out < q_tot; k++) write_to_obj(o); }
        CHECK(q_out == q_tot, "retained bytes are in queue order");
        WITNESS(1, "overwrote the oldest bytes across the wrap");
#endif
    }
#else
    {
        in_flush = 1;
        r = write_to_obj(o);
        CHECK(r == 0, "object stays alive");
        CHECK(!!(ev_armed[5] & POLLOUT) == (q_out < q_tot), "output readiness is awaited exactly while bytes are pending");
        CHECK(o->bufInPtr >= BUF(o) && o->bufInPtr < BUF(o) + OBJ_BUF_SIZE
              && o->bufOutPtr >= BUF(o) && o->bufOutPtr < BUF(o) + OBJ_BUF_SIZE, "buffer positions stay valid");
        in = o->bufInPtr - BUF(o); out = o->bufOutPtr - BUF(o);
        pend = in >= out ? in - out : in + OBJ_BUF_SIZE - out;
        CHECK(pend == q_tot - q_out, "a flush removes exactly what the kernel accepted");
        WITNESS(wrote > 100 && out < 50 && pend > 0, "partial write across the wrap");
    }
#endif
    return 0;
}
