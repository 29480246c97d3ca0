/* C22: the connection life cycle of network, process and local-socket consoles, driven by an
 * arbitrary sequence of events with arbitrary outcomes of every system call. */
#include "connkit.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef PRE
#define PRE 0
#endif
#define TELNET 1
#define PROCESS 2
#define UNIXSOCK 3
static server_conf_t conf;
static obj_t *K;
static aux_obj_t zero_aux;
/* independent view of the life cycle */
#if TYPE == TELNET
#define DMIN TELNET_MIN_TIMEOUT
#define DMAX TELNET_MAX_TIMEOUT
#define DRESET 0
#elif TYPE == PROCESS
#define DMIN PROCESS_MIN_TIMEOUT
#define DMAX PROCESS_MAX_TIMEOUT
#define DRESET 0
#else
#define DMIN UNIXSOCK_MIN_TIMEOUT
#define DMAX UNIXSOCK_MAX_TIMEOUT
#define DRESET UNIXSOCK_MIN_TIMEOUT
#endif
static int delay = DMIN;
static int quiet_env = 1;               /* 1: every call fails (warm-up), 0: arbitrary */
static int fails(void) { return quiet_env ? 1 : nd_bool(); }

char *create_string(const char *s) { return s ? strdup(s) : NULL; }
char *create_time_delta_string(time_t a, time_t b) { char *p = malloc(2); p[0] = 't'; p[1] = 0; return p; }
int write_obj_data(obj_t *o, const void *src, int len, int isInfo) { return len; }
void notify_console_objs(obj_t *c, char *m) { }
int write_notify_msg(obj_t *c, int pri, char *fmt, ...) { return 0; }
void set_fd_nonblocking(int fd) { CHECK(fd >= 0 && fd_open[fd], "mode set on an open descriptor"); }
void set_fd_closed_on_exec(int fd) { CHECK(fd >= 0 && fd_open[fd], "mode set on an open descriptor"); }
static int res_fail, ino_flag, ino_attempt;
int host_name_to_addr4(const char *n, struct in_addr *a) { a->s_addr = 1; res_fail = quiet_env ? 0 : nd_bool(); return res_fail ? -1 : 0; }
int st_socket(int d, int t, int p) { if (!quiet_env && nd_bool()) { errno = EMFILE; return -1; } return new_fd(); }
int st_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { CHECK(fd >= 0 && fd_open[fd], "option set on an open descriptor"); if (!quiet_env && nd_bool()) { errno = ENOBUFS; return -1; } return 0; }
static int inprogress;
int st_connect(int fd, const struct sockaddr *sa, socklen_t n)
{
    CHECK(fd >= 0 && fd_open[fd], "connect on an open descriptor");
    if (!fails()) return 0;
#if TYPE == TELNET
    if (!quiet_env && nd_bool()) { errno = EINPROGRESS; return -1; }
#endif
    if (ino_attempt) delay = UNIXSOCK_MIN_TIMEOUT;      /* a new socket may not be listening yet */
    errno = ECONNREFUSED;
    return -1;
}
int st_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    CHECK(fd >= 0 && fd_open[fd], "connection completes on an open descriptor");
    if (nd_bool()) { errno = ECONNREFUSED; return -1; }
    *(int *) v = nd_bool() ? ETIMEDOUT : 0;
    return 0;
}
int st_stat(const char *p, struct stat *st)
{
    ino_attempt = ino_flag; ino_flag = 0;
    if (fails()) { errno = ENOENT; return -1; }
    st->st_mode = (TYPE == UNIXSOCK ? S_IFSOCK : S_IFREG) | 0755;
    if (!quiet_env && nd_bool()) st->st_mode = S_IFDIR | 0755;
    return 0;
}
int st_access(const char *p, int m) { if (nd_bool()) { errno = EACCES; return -1; } return 0; }
int st_socketpair(int d, int t, int p, int fd[2]) { if (nd_bool()) { errno = EMFILE; return -1; } fd[0] = new_fd(); fd[1] = new_fd(); return 0; }
static int live_pid, next_pid = 100;
pid_t st_fork(void) { if (nd_bool()) { errno = EAGAIN; return -1; } CHECK(live_pid == 0, "one child process at a time"); live_pid = next_pid++; return live_pid; }
int st_kill(pid_t p, int s) { CHECK(p > 0, "signal is sent to the console's own process"); if (p == live_pid) live_pid = 0; return 0; }
int st_execv(const char *p, char *const a[]) { return -1; }
int st_dup2(int a, int b) { return b; }
void st__exit(int c) { ASSUME(0); }
time_t st_time(time_t *t) { if (t) *t = 1000; return 1000; }
inevent_cb_f ino_cb; void *ino_arg;
int inevent_add(const char *path, inevent_cb_f f, void *arg) { ino_cb = f; ino_arg = arg; return 0; }
int inevent_remove(const char *p) { return 0; }
static int rd_res;
ssize_t st_read(int fd, void *b, size_t n)
{
    CHECK(fd >= 0 && fd_open[fd], "read from an open descriptor");
    if (rd_res == 0) return 0;
    if (rd_res == 1) { *(char *) b = 'x'; return 1; }
    errno = rd_res == 2 ? EAGAIN : ECONNRESET;
    return -1;
}

static int up(void)
{
#if TYPE == TELNET
    return K->aux.telnet.state == CONMAN_TELNET_UP;
#elif TYPE == PROCESS
    return K->aux.process.state == CONMAN_PROCESS_UP;
#else
    return K->aux.unixsock.state == CONMAN_UNIXSOCK_UP;
#endif
}
static int pending(void)
{
#if TYPE == TELNET
    return K->aux.telnet.state == CONMAN_TELNET_PENDING;
#else
    return 0;
#endif
}
static int n0, was_up, saw_up, saw_pending, saw_max;
static void begin(void) { n0 = n_sched; was_up = up(); res_fail = 0; }
static void finish(void)
{
    CHECK(n_timers <= 1, "never two timers pending for one console");
    CHECK(n_open == (K->fd >= 0), "no descriptor is leaked");
    if (K->fd >= 0) CHECK(fd_open[K->fd], "the console's descriptor is open");
    if (up() || pending()) {
        CHECK(K->fd >= 0 && (ev_armed[K->fd] & POLLIN), "a live connection is watched for input");
        if (pending()) CHECK(ev_armed[K->fd] & POLLOUT, "a pending connection is watched for completion");
        else CHECK(!K->gotEOF, "a new connection accepts output");
        if (up() && !was_up) {
            CHECK(n_sched == n0 + 1 && n_timers == 1, "the delay is restored only after the connection has been up for a while");
            saw_up = 1;
        }
        if (pending()) { CHECK(n_timers == 0, "no retry while connecting"); saw_pending = 1; }
    } else {
        CHECK(K->fd < 0, "a console that is down has no descriptor");
        CHECK(n_timers == 1, "a retry is pending whenever the console is down");
        if (n_sched != n0) {
            CHECK(n_sched == n0 + 1, "one retry is scheduled per failure");
            if (res_fail) CHECK(last_ms == RESOLVE_RETRY_TIMEOUT * 1000, "a failed look-up is retried after the fixed interval");
            else {
                CHECK(last_ms == delay * 1000, "the retry delay starts at the minimum, doubles on each failure and is bounded");
                if (delay == DMAX) saw_max = 1;
                delay = delay == 0 ? DMIN : delay * 2 > DMAX ? DMAX : delay * 2;
            }
        }
    }
    if (live_pid) CHECK(TYPE == PROCESS && up(), "no child process is left behind");
}
static void fire(void)
{
    int i, isup = up();
    for (i = 0; i < NTM; i++) if (tm_[i].used) {
        callback_f cb = tm_[i].cb; void *a = tm_[i].arg;
        tm_[i].used = 0; n_timers--;
        cb(a);
        if (isup) { delay = DRESET; CHECK(up(), "the connection is not disturbed by the stability timer"); }
        return;
    }
}
int main(void)
{
    int i;
    char err[16];
#if TYPE == TELNET
    conf.objs = list_create(NULL);
    K = create_telnet_obj(&conf, "k", "h", 23, err, sizeof(err));
#elif TYPE == UNIXSOCK
    conf.objs = list_create(NULL);
    K = create_unixsock_obj(&conf, "k", "/s", err, sizeof(err));
#else
    static char *argv[2] = { "/p", NULL };
    K = create_obj(&conf, "k", -1, CONMAN_OBJ_PROCESS);
    K->aux = zero_aux;
    K->aux.process.argv = argv; K->aux.process.prog = "p"; K->aux.process.timer = -1; K->aux.process.delay = PROCESS_MIN_TIMEOUT;
    K->aux.process.pid = -1; K->aux.process.state = CONMAN_PROCESS_DOWN;
#endif
    CHECK(K != NULL, "console is created");
    /* warm-up: PRE failed attempts, so that the maximum delay is reached */
    for (i = 0; i < PRE; i++) {
        begin();
#if TYPE == TELNET
        /* a look-up failure does not back off; refuse the connection instead */
        quiet_env = 2;
#endif
        if (i == 0) reopen_obj(K); else fire();
        finish();
    }
    quiet_env = 0;
    for (i = 0; i < STEPS; i++) {
        int ev = nd_range(0, 3);
        begin();
        if (i == 0 && PRE == 0) reopen_obj(K);          /* the daemon opens every console once */
        else if (ev == 0 && n_timers) fire();
        else if (ev == 1 && up()) { rd_res = nd_range(0, 3); read_from_obj(K); if (rd_res == 1 || rd_res == 2) CHECK(up(), "data or no data is not a disconnect"); else CHECK(!up(), "end-of-file or an error ends the connection"); }
        else if (ev == 2 && pending()) write_to_obj(K);
        else if (ev == 3 && TYPE == UNIXSOCK) { ino_flag = 1; ino_cb(ino_arg); }
        finish();
    }
    WITNESS(saw_up && !up(), "connected and lost again");
    WITNESS(up() && i == STEPS, "connected at the end");
#if TYPE == TELNET
    WITNESS(saw_pending && saw_up, "connected after pending");
#endif
#if PRE
    WITNESS(saw_max, "maximum delay");
#endif
    return 0;
}
