/* C04: a terminal server's byte stream. Real code: the connection set-up, read_from_obj and the
 * telnet state machine. Every stream of LEN bytes, read in pieces of RD, possibly with the
 * connection lost and re-established after CUT bytes; compared with an independent parser of
 * the protocol (RFC 854/855). */
#include "connkit.h"
#include <arpa/telnet.h>
#ifndef LEN
#define LEN 4
#endif
#ifndef RD
#define RD LEN
#endif
#ifndef CUT
#define CUT 0
#endif
static server_conf_t conf;
static obj_t *K, *C;
static aux_obj_t zero_aux;
static req_t req;
static unsigned char data[LEN + 1], wdata[LEN + 1], rep[2 * LEN + 3], wrep[2 * LEN + 3];
static int nd_, nw_, nr_, nwr_, live;
char *create_string(const char *s) { return s ? strdup(s) : NULL; }
int write_obj_data(obj_t *o, const void *src, int len, int isInfo)
{
    int i;
    const unsigned char *p = src;
    if (len <= 0) return 0;
    if (!live) return len;
    if (o == C) {
        CHECK(!isInfo, "console output is not an informational message");
        for (i = 0; i < LEN; i++) if (i < len) { CHECK(nd_ < LEN, "no data is invented"); if (nd_ < LEN) data[nd_++] = p[i]; }
        CHECK(len <= LEN, "no data is invented");
    } else {
        CHECK(o == K && len == 3 && p[0] == IAC, "replies are whole option negotiations");
        CHECK(nr_ + 2 <= 2 * LEN, "each negotiation is answered at most once");
        if (nr_ + 2 <= 2 * LEN) { rep[nr_++] = p[1]; rep[nr_++] = p[2]; }
    }
    return len;
}
void notify_console_objs(obj_t *c, char *m) { }
int write_notify_msg(obj_t *c, int pri, char *fmt, ...) { return 0; }
void set_fd_nonblocking(int fd) { }
void set_fd_closed_on_exec(int fd) { }
int host_name_to_addr4(const char *n, struct in_addr *a) { a->s_addr = 1; return 0; }
int st_socket(int d, int t, int p) { return new_fd(); }
int st_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int st_connect(int fd, const struct sockaddr *sa, socklen_t n) { return 0; }
static unsigned char stream[LEN];
static int pos, chunk;
ssize_t st_read(int fd, void *b, size_t n)
{
    int i;
    CHECK(n >= LEN, "harness: read size");
    for (i = 0; i < LEN; i++) if (i < chunk) ((unsigned char *) b)[i] = stream[pos + i];
    pos += chunk;
    return chunk;
}
static void answer(int verb, int opt) { wrep[nwr_++] = verb; wrep[nwr_++] = opt; }

int main(void)
{
    int i, st = 0, verb = 0, pend = -1, same = 0;
    conf.objs = list_create(NULL);
    K = create_telnet_obj(&conf, "k", "h", 23, NULL, 0);
    C = create_obj(&conf, "c", 11, CONMAN_OBJ_CLIENT);
    C->aux = zero_aux; C->aux.client.req = &req; req.user = req.host = "u";
    list_append(K->readers, C); list_append(C->writers, K);
    CHECK(open_telnet_obj(K) == 0 && K->aux.telnet.state == CONMAN_TELNET_UP, "connected");
    nd_bytes(stream, LEN);
    live = 1;
    for (i = 0; i < LEN; i++) {
        unsigned char c = stream[i];
        if (CUT && i == CUT) st = 0;                    /* a new connection starts clean */
        switch (st) {
        case 0: if (c == 255) st = 1; else wdata[nw_++] = c; break;
        case 1:
            if (c == 255) { wdata[nw_++] = c; st = 0; }
            else if (c >= 251 && c <= 254) { verb = c; st = 2; }
            else if (c == 250) st = 3;
            else st = 0;
            break;
        case 2:
            st = 0;
            /* refuse what is not supported; never answer a refusal */
            if (verb == 253 && c != 0 && c != 3) answer(252, c);            /* DO -> WONT */
            if (verb == 251 && c != 0 && c != 1 && c != 3) answer(254, c);  /* WILL -> DONT */
            break;
        case 3: if (c == 255) st = 4; break;
        case 4:
            /* IAC IAC is sub-negotiation data, IAC SE ends it; other commands are not defined here */
            ASSUME(c == 255 || c == 240);
            st = c == 255 ? 3 : 0;
            break;
        }
    }
    for (i = 0; i < LEN; ) {
        if (CUT && i == CUT) {
            live = 0;
            shutdown_obj(K);
            CHECK(K->aux.telnet.state == CONMAN_TELNET_DOWN, "disconnected");
            { callback_f cb = tm_[0].used ? tm_[0].cb : tm_[1].cb; tm_[0].used = tm_[1].used = 0; cb(K); }
            CHECK(K->aux.telnet.state == CONMAN_TELNET_UP, "reconnected");
            live = 1;
        }
        chunk = RD;
        if (CUT && i < CUT && i + chunk > CUT) chunk = CUT - i;
        if (i + chunk > LEN) chunk = LEN - i;
        CHECK(read_from_obj(K) >= 0, "the console stays connected");
        i += chunk;
    }
    CHECK(nd_ == nw_, "exactly the data bytes reach the readers");
    for (i = 0; i < LEN; i++) if (i < nd_ && i < nw_) CHECK(data[i] == wdata[i], "data bytes are unchanged and in order");
    CHECK(nr_ == nwr_, "each unsupported option is refused exactly once and nothing else is answered");
    for (i = 0; i < 2 * LEN; i++) if (i < nr_ && i < nwr_) CHECK(rep[i] == wrep[i], "negotiations are answered with the right refusal");
    WITNESS(nw_ == LEN, "all data");
#if LEN > 2
    WITNESS(nwr_ == 2, "refusal sent");
#endif
    return 0;
}
