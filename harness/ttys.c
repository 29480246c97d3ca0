/* C35: terminal modes. TEST 1: serial console (server-serial.c, server-obj.c, common.c); TEST 2: the user's terminal. */
#if TEST == 2
#include "client-tty.c"
#endif
#include <termios.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include "objkit.h"
static struct termios dev, orig;        /* the line's settings now; before the program touched it */
static int tty_ok = 1, n_set, drained = 1;
#undef isatty
int st_isatty(int fd) { return tty_ok; }
int st_tcgetattr(int fd, struct termios *t) { CHECK(fd == TFD, "the line"); *t = dev; return 0; }
int st_tcsetattr(int fd, int how, const struct termios *t) { CHECK(fd == TFD, "the line"); dev = *t; n_set++; return 0; }
int st_cfsetispeed(struct termios *t, speed_t s) { t->c_ispeed = s; t->c_cflag = (t->c_cflag & ~(CBAUD | CBAUDEX)) | s; return 0; }
int st_cfsetospeed(struct termios *t, speed_t s) { t->c_ospeed = s; t->c_cflag = (t->c_cflag & ~(CBAUD | CBAUDEX)) | s; return 0; }
int st_tcflush(int fd, int q) { return 0; }
static void any(struct termios *t)
{
    int i;
    t->c_iflag = nd_raw32(); t->c_oflag = nd_raw32(); t->c_cflag = nd_raw32(); t->c_lflag = nd_raw32();
    for (i = 0; i < NCCS; i++) t->c_cc[i] = nd_u8();
    t->c_ispeed = nd_raw32(); t->c_ospeed = nd_raw32(); t->c_line = 0;
}
static void same(const struct termios *a, const struct termios *b)
{
    int i;
    CHECK(a->c_iflag == b->c_iflag && a->c_oflag == b->c_oflag && a->c_cflag == b->c_cflag && a->c_lflag == b->c_lflag, "the saved modes are restored");
    for (i = 0; i < NCCS; i++) CHECK(a->c_cc[i] == b->c_cc[i], "the saved control characters are restored");
    CHECK(a->c_ispeed == b->c_ispeed && a->c_ospeed == b->c_ospeed, "the saved speeds are restored");
}
static void raw(const struct termios *t)
{
    CHECK(!(t->c_iflag & (BRKINT | ICRNL | INLCR | IGNCR | IUCLC | INPCK | ISTRIP | PARMRK | IXON)), "no input translation");
    CHECK(!(t->c_oflag & OPOST), "no output translation");
    CHECK(!(t->c_lflag & (ECHO | ICANON | IEXTEN | ISIG)), "no echo, line editing or signal characters");
    CHECK(t->c_cc[VMIN] == 1 && t->c_cc[VTIME] == 0, "one byte at a time");
    CHECK((t->c_cflag & CLOCAL) && (t->c_cflag & CREAD), "the receiver is enabled");
}
#if TEST == 1
static int open_fail, lock_fail;
int st_open(const char *p, int f, ...)
{
    CHECK((f & O_ACCMODE) == O_RDWR && (f & O_NOCTTY) && (f & O_NONBLOCK), "how the device is opened");
    if (open_fail) { errno = EIO; return -1; }
    fd_open[TFD] = 1;
    return TFD;
}
static int n_closed;
int cl_close(int fd) { CHECK(fd == TFD && fd_open[fd], "close of the open line"); fd_open[fd] = 0; n_closed++; return 0; }
int get_write_lock(int fd) { return lock_fail ? -1 : 0; }
void set_fd_nonblocking(int fd) { }
void set_fd_closed_on_exec(int fd) { }
int write_notify_msg(obj_t *c, int p, char *f, ...) { return 0; }
static server_conf_t conf;
static seropt_t op;
static const speed_t SP[] = { B50, B110, B9600, B19200, B38400, B57600, B115200, B230400 };
static void session(obj_t *o, int *up)
{
    int ok, i = n_closed, was = *up, rc;
    struct termios before;
    open_fail = nd_bool(); lock_fail = nd_bool(); tty_ok = was ? 1 : nd_bool();
    rc = open_serial_obj(o);
    ok = !open_fail && !lock_fail && tty_ok;
    CHECK((rc == 0) == ok, "open succeeds or fails");
    CHECK(n_closed - i == was + (!open_fail && !ok), "closed exactly when needed");
    CHECK((o->fd == TFD) == ok && (ok || o->fd == -1), "descriptor");
    *up = ok;
    if (!ok) { if (tty_ok) same(&dev, &orig); CHECK(!(ev_armed[TFD]), "not watched"); return; }
    raw(&dev);
    CHECK(ev_armed[TFD] == POLLIN, "watched for input");
    CHECK(dev.c_ispeed == op.bps && dev.c_ospeed == op.bps && (dev.c_cflag & (CBAUD | CBAUDEX)) == op.bps, "the configured speed");
    CHECK((dev.c_cflag & CSIZE) == (op.databits == 5 ? CS5 : op.databits == 6 ? CS6 : op.databits == 7 ? CS7 : CS8), "the configured character size");
    CHECK(!!(dev.c_cflag & PARENB) == (op.parity != 0), "parity on or off");
    if (op.parity) CHECK(!!(dev.c_cflag & PARODD) == (op.parity == 1) && !(dev.c_cflag & CMSPAR), "the configured parity");
    CHECK(!!(dev.c_cflag & CSTOPB) == (op.stopbits == 2), "the configured stop bits");
    WITNESS(op.parity == 2 && (orig.c_cflag & CMSPAR) && (orig.c_iflag & IGNCR), "even parity");
}
int main(void)
{
    obj_t *o; int up = 0;
    conf.objs = list_create((ListDelF) destroy_obj);
    op.databits = nd_range(5, 8); op.parity = nd_range(0, 2); op.stopbits = nd_range(1, 2); op.bps = SP[nd_range(0, 7)];
    any(&orig); dev = orig;
    o = create_serial_obj(&conf, "c", "/d", &op, NULL, 0);
    CHECK(o != NULL, "created");
    session(o, &up);
    if (nd_bool()) session(o, &up);
    if (tty_ok) { list_destroy(conf.objs); if (n_set) same(&dev, &orig); }
    return 0;
}
#else
static client_conf_t cc; static req_t rq; static int n_read, cmd;
int st_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { FD_ZERO(r); FD_SET(0, r); return 1; }
static int read_from_stdin(client_conf_t *c)
{
    raw(&dev); CHECK((dev.c_cflag & CSIZE) == CS8 && !(dev.c_cflag & PARENB), "8 bits, no parity");
    n_read++;
    WITNESS(orig.c_iflag & INLCR, "session");
    if (n_read == 1 && cmd == 1) { CHECK(perform_suspend_esc(c, 'Z') == 1, "suspend"); return 1; }
    if (n_read == 1 && cmd == 2) { CHECK(perform_echo_esc(c, 'E') == 1, "echo"); CHECK(dev.c_lflag & ECHO, "echo on"); CHECK(perform_echo_esc(c, 'E') == 1 && !(dev.c_lflag & ECHO), "echo off"); return 1; }
    return 0;
}
static int write_to_stdout(client_conf_t *c) { CHECK(0, "nothing from the daemon"); return 0; }
static void locally_display_status(client_conf_t *c, char *m) { }
static void locally_echo_esc(char e, char c) { }
static int send_esc_seq(client_conf_t *c, char x) { return 1; }
static int n_stop;
int st_kill(pid_t p, int s) { CHECK(s == SIGTSTP, "suspended"); same(&dev, &orig); n_stop++; return 0; }
int cl_close(int fd) { CHECK(fd == 5, "the connection"); return 0; }
SigFunc *posix_signal(int s, SigFunc *f) { return NULL; }
pid_t st_getpid(void) { return 7; }
int list_count(List l) { return 1; }
int main(void)
{
    any(&orig); dev = orig;
    cc.req = &rq; rq.sd = 5; rq.command = nd_bool() ? CONMAN_CMD_CONNECT : CONMAN_CMD_MONITOR; rq.host = "h";
    cmd = nd_range(0, 2); if (rq.command != CONMAN_CMD_CONNECT && cmd == 2) cmd = 0;
    connect_console(&cc);
    CHECK(n_read == 1 + (cmd != 0) && n_stop == (cmd == 1), "one session");
    same(&dev, &orig);
    return 0;
}
#endif
