/* C37: the client's keyboard handling, driven through connect_console(): every key typed, one at a time. */
#include "client-tty.c"
#include <sys/select.h>
#include "nd.h"
#define SD 5
static client_conf_t cc; static req_t rq;
static unsigned char key[NK]; static int nread, nstop, nshut, waits;
static unsigned char out[32], want[32]; static int nout, nwant;
static int consoles = 1, echo0;
/* reference state */
static int cmd, bcast, rst, quiet, echo, force, join, pend, shut, stop;
void log_err(int e, const char *f, ...) { CHECK(0, "the client is terminated by a fatal error"); ASSUME(0); abort(); }
void log_msg(int p, const char *f, ...) { }
static struct termios tt, tt0;
#undef isatty
int st_isatty(int fd) { return 1; }
void get_tty_mode(struct termios *t, int fd) { *t = tt; }
void get_tty_raw(struct termios *t, int fd) { *t = tt; t->c_lflag &= ~(ECHO | ICANON | ISIG | IEXTEN); }
void set_tty_mode(struct termios *t, int fd) { tt = *t; }
SigFunc *posix_signal(int s, SigFunc *f) { return NULL; }
int st_kill(pid_t p, int s) { CHECK(s == SIGTSTP, "suspended"); nstop++; return 0; }
pid_t st_getpid(void) { return 7; }
int st_shutdown(int fd, int how) { CHECK(fd == SD, "the connection"); nshut++; return 0; }
int cl_close(int fd) { CHECK(fd == SD, "the connection"); return 0; }
int list_count(List l) { return consoles; }
void *list_peek(List l) { return (void *) "c"; }
int append_format_string(char *d, size_t s, const char *f, ...) { return 1; }
char *create_format_string(const char *f, ...) { char *p = malloc(2); p[0] = 'i'; p[1] = 0; return p; }
int st_snprintf(char *b, size_t n, const char *f, ...) { b[0] = 's'; b[1] = 0; return 1; }
ssize_t write_n(int fd, void *b, size_t n)
{
    size_t i; unsigned char *p = b;
    CHECK(fd == SD || fd == STDOUT_FILENO, "the connection or the terminal");
    if (fd == SD) for (i = 0; i < 4; i++) if (i < n) { if (nout < 32) out[nout] = p[i]; nout++; }
    CHECK(fd != SD || n <= 4, "as typed");
    return n;
}
static void put(unsigned char c) { want[nwant++] = c; }
static void data(unsigned char c) { if (cmd == CONMAN_CMD_CONNECT) { put(c); if (c == 0xFF) put(c); } }
static void seq(unsigned char c) { put(0xFF); put(c); }
static void step(unsigned char c)
{
    unsigned char e = (unsigned char) cc.escapeChar; int rw = cmd == CONMAN_CMD_CONNECT;
    if (!pend) { if (c == e) pend = 1; else data(c); return; }
    pend = 0;
    if (c == e) { data(c); return; }
    switch (c) {
    case 'B': case 'D': if (rw) seq(c); break;
    case '.': shut++; break;
    case 'E': if (rw) echo ^= 1; break;
    case 'F': case 'J': if (!rw) { cmd = CONMAN_CMD_CONNECT; force = c == 'F'; join = c == 'J'; seq(c); } break;
    case '?': case 'I': break;
    case 'L': if (!bcast) seq(c); break;
    case 'M': if (rw && !bcast) { cmd = CONMAN_CMD_MONITOR; force = join = 0; seq(c); } break;
    case 'Q': quiet ^= 1; seq(c); break;
    case 'R': if (rw && rst) seq(c); break;
    case 'Z': seq(c); seq(c); stop++; echo = 0; break;
    default: data(e); data(c);
    }
}
static void judge(void)
{
    int i;
    CHECK(nout == nwant, "nothing typed is lost or added");
    for (i = 0; i < nwant && i < nout; i++) CHECK(out[i] == want[i], "what is sent is what was typed");
    CHECK((int) rq.command == cmd, "mode"); CHECK((int) rq.enableQuiet == quiet, "quiet mode");
    CHECK(nshut == shut && nstop == stop && (int) cc.isClosedByClient == (shut > 0), "closed and suspended as asked");
    CHECK(cmd == CONMAN_CMD_MONITOR || ((int) rq.enableForce == force && (int) rq.enableJoin == join), "how access was asked for");
}
ssize_t st_read(int fd, void *b, size_t n)
{
    if (fd == SD) { CHECK(0, "nothing from the daemon"); return 0; }
    CHECK(fd == 0 && n >= 1, "from the keyboard");
    if (nread > 0 && nread <= NK) { step(key[nread - 1]); judge(); }
    if (nread >= NK) return 0;
    *(unsigned char *) b = key[nread++];
    if (nread == NK) nread = NK;
    return 1;
}
int st_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    waits++;
    CHECK(waits <= NK + 1, "ends when the input ends");
    ASSUME(waits <= NK + 1);
    FD_ZERO(r); FD_SET(0, r); return 1;
}
int main(void)
{
    int i;
    cc.req = &rq; cc.logd = -1; rq.sd = SD; rq.host = "h";
    rq.command = MODE == 0 ? CONMAN_CMD_CONNECT : MODE == 1 ? CONMAN_CMD_MONITOR : CONMAN_CMD_CONNECT;
    if (MODE == 2) { consoles = 2; rq.enableBroadcast = 1; }
    rq.enableReset = nd_bool(); rq.enableQuiet = nd_bool(); rq.enableForce = rq.enableJoin = 0;
    cmd = rq.command; bcast = rq.enableBroadcast; rst = rq.enableReset; quiet = rq.enableQuiet;
    cc.escapeChar = (char) nd_u8();
    for (i = 0; i < NK; i++) key[i] = nd_u8();
    connect_console(&cc);
    WITNESS(nout >= 4 && nread == NK, "sent");
    WITNESS(shut && nout >= 2, "closed");
    return 0;
}
