/* C33 / C27: the daemon's main program (server.c).
 * TEST 1 first stamp; 2 following stamps; 3 one timer expiry; 4 start-up with and without an interval and
 * with any standard descriptors closed; 5 the environment given to child programs. */
#define main srv_main
#include "server.c"
#undef main
#include "nd.h"
#ifndef NLOG
#define NLOG 0
#endif
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { CHECK(0, "the daemon is terminated by a fatal error"); ASSUME(0); abort(); }
static server_conf_t conf;
static int n_timer; static struct timeval t_at; static int now_s;
int tpoll_timeout_absolute(tpoll_t tp, callback_f cb, void *arg, const struct timeval *tv)
{
    CHECK(cb == (callback_f) timestamp_logfiles && arg == &conf, "the stamp timer");
    n_timer++; t_at = *tv;
    return 1;
}
static time_t mk_ret;   /* what mktime answers: an arbitrary time, identified by the fields it was asked for */
static int hh, mi, ss, q_min, q_sec;    /* local time of day of now_s; result in minutes since midnight */
struct tm *get_localtime(time_t *t, struct tm *tm)
{
    if (*t == 0) *t = now_s;
    else CHECK(*t == conf.tStampNext, "harness: the previous stamp");
    tm->tm_hour = hh; tm->tm_min = mi; tm->tm_sec = *t == now_s ? ss : 0;
    tm->tm_isdst = 0;
    return tm;
}
time_t st_mktime(struct tm *tm)
{
    q_min = tm->tm_hour * 60 + tm->tm_min; q_sec = tm->tm_sec;
    return mk_ret;
}
#if TEST == 3
static char nm[2][8];
static obj_t o[4];
static int n_w[2]; static char line[2][80];
char *create_long_time_string(time_t t) { char *p = malloc(3); CHECK(t == 0, "the present time"); p[0] = 'T'; p[1] = 'T'; p[2] = 0; return p; }
int write_obj_data(obj_t *obj, const void *src, int len, int info)
{
    int k = obj == &o[2] ? 0 : 1, i;
    CHECK(obj == &o[2] || obj == &o[3], "console logs only");
    CHECK(info, "marked as informational");
    CHECK(len > 0 && len < 80, "bounded");
    n_w[k]++;
    for (i = 0; i < 79; i++) line[k][i] = i < len ? ((const char *) src)[i] : 0;
    return len;
}
#else
int write_obj_data(obj_t *obj, const void *src, int len, int info) { return len; }
#endif
#if TEST == 4
/* ---- start-up */
static int tbl[10];             /* what each descriptor refers to: 0 closed */
enum { F_NONE, F_STD, F_NULL, F_OTHER };
static int std0[3], fg, n_std_used, reached;
static int fd_new(int what) { int i; for (i = 0; i < 10; i++) if (!tbl[i]) { tbl[i] = what; return i; } CHECK(0, "harness: descriptors"); return -1; }
int st_open(const char *p, int f, ...) { CHECK(p[0] == '/' && p[1] == 'd' && p[5] == 'n', "/dev/null"); return fd_new(F_NULL); }
int st_close(int fd) { CHECK(fd >= 0 && fd < 10 && tbl[fd], "close of an open descriptor"); tbl[fd] = 0; return 0; }
int st_dup2(int a, int b)
{
    CHECK(a >= 0 && tbl[a], "dup2 of an open descriptor");
    CHECK(a == b || tbl[b] != F_OTHER, "a descriptor in use is never replaced");
    tbl[b] = tbl[a]; return b;
}
int st_pipe(int *p) { p[0] = fd_new(F_OTHER); p[1] = fd_new(F_OTHER); return 0; }
pid_t st_fork(void) { return 0; }
pid_t st_setsid(void) { return 7; }
mode_t st_umask(mode_t m) { return 0; }
int st_chdir(const char *p) { return 0; }
pid_t st_getpid(void) { return 7; }
int st_kill(pid_t p, int s) { return 0; }
SigFunc *posix_signal(int s, SigFunc *f) { return NULL; }
void log_set_file(FILE *f, int p, int t) { }
void log_set_syslog(char *i, int f) { }
void log_set_err_pipe(int fd) { }
server_conf_t *create_server_conf(void) { int p[2]; st_pipe(p); conf.tp = (tpoll_t) &conf; return &conf; }
void destroy_server_conf(server_conf_t *c) { }
void process_cmdline(server_conf_t *c, int argc, char *argv[]) { conf.enableForeground = fg; }
void process_config(server_conf_t *c) { conf.tStampMinutes = nd_range(0, 1); conf.syslogFacility = -1; }
void ipmi_init(int n) { }
void ipmi_fini(void) { }
int list_is_empty(List l) { return 0; }
static void setup_coredump(server_conf_t *c) { }
static void setup_signals(server_conf_t *c) { }
static void display_configuration(server_conf_t *c) { }
static void create_listen_socket(server_conf_t *c) { fd_new(F_OTHER); }
static void setup_nofile_limit(server_conf_t *c) { }
static void open_daemon_logfile(server_conf_t *c) { }
static void open_objs(server_conf_t *c)
{
    int i;
    for (i = 0; i < 3; i++) {
        CHECK(tbl[i] == F_NULL || (fg && tbl[i] == F_STD), "standard descriptors are open");
    }
    CHECK(environ[0] && !strncmp(environ[0], "IFS=", 4), "programs get the sanitised environment");
}
static void mux_io(server_conf_t *c)
{
    CHECK(n_timer == (conf.tStampMinutes > 0), "one stamp pending exactly when an interval is configured");
    WITNESS(n_timer && !fg && !std0[0] && !std0[2], "started");
    reached = 1;
}
void st_exit(int s) { CHECK(reached && s == 0, "exit only after the main loop"); ASSUME(0); abort(); }
char *st_getenv(const char *n) { return NULL; }
#endif
#if TEST == 5
static char vD[4], vT[4];
char *st_getenv(const char *n)
{
    if (n[0] == 'D' && n[1] == 'E' && n[2] == 'B' && n[3] == 'U' && n[4] == 'G' && !n[5]) return DL >= 0 ? vD : NULL;
    if (n[0] == 'T' && n[1] == 'Z' && !n[2]) return TL >= 0 ? vT : NULL;
    if (nd_bool()) return NULL;
    { static char hostile[] = "H"; return hostile; }
}
static struct { char *p[4 + (DL >= 0) + (TL >= 0)]; char s[200]; } area;
void *st_malloc(size_t n) { CHECK(n == sizeof(area.p) + 8 + 35 + 10 + (DL >= 0 ? 7 + DL : 0) + (TL >= 0 ? 4 + TL : 0), "harness: size"); return &area; }
void st_free(void *p) { }
size_t st_strlen(const char *p) { size_t n = 0; if (p == vD) return DL; if (p == vT) return TL; while (p[n]) n++; return n; }
void *st_memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; i++) ((char *) d)[i] = ((const char *) s)[i]; return d; }
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 60; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
#endif
int main(void)
{
    int i;
#if TEST == 1
    conf.tStampMinutes = nd_range(1, IMAX);
    hh = nd_range(0, 23); mi = nd_range(0, 59); ss = nd_range(0, 59);
    now_s = nd_range(1, 0x7ffffff0); mk_ret = nd_range(1, 0x7ffffff0);
    schedule_timestamp(&conf);
    CHECK(n_timer == 1 && t_at.tv_usec == 0, "exactly one stamp is pending");
    /* minutes since local midnight; whole minutes, so comparing minutes decides comparing seconds */
    CHECK(q_sec == 0 && q_min > hh * 60 + mi && q_min - (hh * 60 + mi) <= conf.tStampMinutes, "the first stamp is due in the future, at most one interval away");
    CHECK(t_at.tv_sec == mk_ret && q_min % conf.tStampMinutes == 0, "at a multiple of the interval since midnight");
    CHECK(conf.tStampNext == t_at.tv_sec, "remembered");
    WITNESS(conf.tStampMinutes > 60 && q_min > 1440, "past midnight");
#elif TEST == 2
    conf.tStampMinutes = nd_range(1, 100000);
    hh = nd_range(0, 23); mi = nd_range(0, 59);
    conf.tStampNext = nd_range(1, 0x7ffffff0); now_s = nd_range(1, 0x7ffffff0); mk_ret = nd_range(1, 0x7ffffff0);
    ASSUME(now_s != conf.tStampNext);
    schedule_timestamp(&conf);
    CHECK(n_timer == 1 && q_sec == 0 && q_min == hh * 60 + mi + conf.tStampMinutes && t_at.tv_sec == mk_ret && t_at.tv_usec == 0, "each further stamp is exactly one interval after the previous one, however late");
    CHECK(conf.tStampNext == t_at.tv_sec, "remembered");
    WITNESS(now_s > mk_ret, "late");
#elif TEST == 3
    static const char PRE[] = "\r\n<ConMan> Console [";
    int k, j, L[2], m, pos, present[2];
    conf.objs = list_create(NULL);
    for (k = 0; k < 2; k++) {
        L[k] = nd_string(nm[k], 7);
        o[k].type = CONMAN_OBJ_SERIAL; o[k].name = nm[k]; o[k + 2].type = CONMAN_OBJ_LOGFILE; o[k + 2].name = nm[k]; o[k + 2].aux.logfile.console = &o[k];
        present[k] = (NLOG >> k) & 1;
    }
    list_append(conf.objs, &o[0]);
    if (present[0]) list_append(conf.objs, &o[2]);
    list_append(conf.objs, &o[1]);
    if (present[1]) list_append(conf.objs, &o[3]);
    conf.tStampMinutes = 5; hh = 10; mi = 20; conf.tStampNext = 500; mk_ret = 800;
    timestamp_logfiles(&conf);
    for (k = 0; k < 2; k++) {
        CHECK(n_w[k] == present[k], "each console log gets exactly one stamp per expiry");
        if (!present[k]) continue;
        for (j = 0; PRE[j]; j++) CHECK(line[k][j] == PRE[j], "a stamp starts on its own line");
        /* name, then "] log at TT.\r\n", cut to the line limit but always ended */
        m = MAX_LINE - 3; pos = j;
        for (j = 0; j < 7; j++) if (j < L[k] && pos < m) { CHECK(line[k][pos] == nm[k][j], "names the console"); pos++; }
        { static const char POST[] = "] log at TT."; for (j = 0; POST[j]; j++) if (pos < m) { CHECK(line[k][pos] == POST[j], "and the time"); pos++; } }
        CHECK(line[k][pos] == '\r' && line[k][pos + 1] == '\n' && line[k][pos + 2] == 0, "a stamp ends its line");
#if NLOG
        WITNESS(pos == m && L[k] == 7, "cut");
#endif
    }
    CHECK(n_timer == (present[0] || present[1]), "the next stamp is pending");
    if (n_timer) CHECK(t_at.tv_sec == 800 && q_min == 625, "one interval later");
    WITNESS(L[1] == 7, "done");
#elif TEST == 4
    static char *av[] = { "conmand", NULL };
    static char *env0[] = { "PATH=/evil", NULL };
    for (i = 0; i < 3; i++) { std0[i] = nd_bool(); tbl[i] = std0[i] ? F_STD : F_NONE; }
    fg = nd_bool();
    environ = env0;
    now_s = 60; mk_ret = 300;
    srv_main(1, av);
#elif TEST == 5
    char **e; int n = 3;
    for (i = 0; i < DL; i++) { vD[i] = (char) nd_u8(); ASSUME(vD[i]); }
    for (i = 0; i < TL; i++) { vT[i] = (char) nd_u8(); ASSUME(vT[i]); }
    e = get_sane_env();
    CHECK(e != NULL, "an environment");
    CHECK(eq(e[0], "IFS= \t\n"), "IFS"); CHECK(eq(e[1], "PATH=/usr/bin:/bin:/usr/sbin:/sbin"), "the standard search path"); CHECK(eq(e[2], "TERM=dumb"), "TERM");
    if (DL >= 0) { CHECK(!strncmp(e[n], "DEBUG=", 6), "DEBUG is kept"); for (i = 0; i <= DL; i++) CHECK(e[n][6 + i] == vD[i], "with its value"); n++; }
    if (TL >= 0) { CHECK(!strncmp(e[n], "TZ=", 3), "TZ is kept"); for (i = 0; i <= TL; i++) CHECK(e[n][3 + i] == vT[i], "with its value"); n++; }
    CHECK(e[n] == NULL, "and nothing else");
    WITNESS(DL <= 0 || vD[0] == ':', "environment built");
#endif
    return 0;
}
