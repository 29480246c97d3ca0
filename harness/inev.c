/* C34: file-system watch events (inevent.c). */
#define malloc inev_malloc
#include "inevent.c"
#undef malloc
#include "nd.h"
#ifndef E1
#define E1 0
#endif
#if NEV > 1
#define EL(k) ((k) ? E1 : E0)
#else
#define EL(k) E0
#endif
static struct inevent pool[8]; static int n_pool;
void *inev_malloc(size_t n) { CHECK(n == sizeof(struct inevent) && n_pool < 8, "harness: allocation"); return &pool[n_pool++]; }
void st_free(void *p) { }
char *st_strdup(const char *s) { static char a[24][8]; static int n; int i; CHECK(n < 24, "harness: strdup"); for (i = 0; i < 7; i++) { a[n][i] = s[i]; if (!s[i]) break; } return a[n++]; }
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { CHECK(0, "the daemon is terminated by a fatal error"); ASSUME(0); abort(); }
void set_fd_nonblocking(int fd) { }
void set_fd_closed_on_exec(int fd) { }
static const char *P[3] = { "/a/x", "/a/y", "/x" };
static int dir_of[3] = { 0, 0, 1 };
static int dwd[2] = { -1, -1 }, next_wd = 1, reg[3], open_fd, fail_add, ev_i, order[4], n_calls;
int st_inotify_init(void) { CHECK(!open_fd, "one event queue"); open_fd = 1; dwd[0] = dwd[1] = -1; return 6; }
int st_inotify_add_watch(int fd, const char *p, uint32_t m)
{
    int d = (p[0] == '/' && !p[1]) ? 1 : 0;
    CHECK(fd == 6 && open_fd, "queue");
    CHECK(d || (p[0] == '/' && p[1] == 'a' && !p[2]), "the path's directory is watched");
    CHECK((m & (IN_CREATE | IN_MOVED_TO)) == (IN_CREATE | IN_MOVED_TO), "for creation and renaming");
    if (fail_add) return -1;
    if (dwd[d] < 0) dwd[d] = next_wd++;
    return dwd[d];
}
int st_inotify_rm_watch(int fd, int wd)
{
    int d;
    CHECK(fd == 6 && open_fd, "queue");
    for (d = 0; d < 2; d++) if (dwd[d] == wd) { dwd[d] = -1; CHECK(!(reg[0] && dir_of[0] == d) && !(reg[1] && dir_of[1] == d) && !(reg[2] && dir_of[2] == d), "a watch in use is not removed"); return 0; }
    CHECK(0, "only existing watches are removed");
    return -1;
}
int st_close(int fd) { CHECK(fd == 6 && open_fd, "queue"); open_fd = 0; dwd[0] = dwd[1] = -1; return 0; }
static void cb(void *arg) { if (n_calls < 4) order[n_calls] = (int) (size_t) arg; n_calls++; }
#define ESZ(k) (sizeof(struct inotify_event) + (EL(k)))
static int wd[2]; static uint32_t mask[2]; static char nmv[2][4];
ssize_t st_read(int fd, void *buf, size_t n)
{
    char *b = buf; int k, i;
    CHECK(fd == 6 && n >= 64, "read of the queue");
    if (ev_i++ == 0 && nd_bool()) { errno = EINTR; return -1; }
    for (k = 0; k < NEV; k++) {
        struct inotify_event e; e.wd = wd[k]; e.mask = mask[k]; e.cookie = 0; e.len = EL(k);
        *(struct inotify_event *) b = e;
        for (i = 0; i < EL(k); i++) b[sizeof(struct inotify_event) + i] = nmv[k][i];
        b += ESZ(k);
    }
    return b - (char *) buf;
}
int main(void)
{
    static const signed char seq[] = SEQ;
    int i, k, want[4], n = 0, rc;
    for (i = 0; i < (int) sizeof(seq); i++) {
        k = seq[i] & 3;
        if (seq[i] < 4) {
            fail_add = 0;
#ifdef FAIL
            if (i == FAIL) fail_add = 1;
#endif
            rc = inevent_add(P[k], cb, (void *) (size_t) (k + 1));
            CHECK((rc == 0) == (!reg[k] && !fail_add), "added once");
            if (rc == 0) reg[k] = 1;
        } else {
            reg[k] = 0;
            CHECK(inevent_remove(P[k]) == 0, "removed");
        }
        for (k = 0; k < 3; k++) if (reg[k]) CHECK(dwd[dir_of[k]] >= 0, "a registered path stays watched");
    }
    if (!reg[0] && !reg[1] && !reg[2]) {
#ifdef FAIL
        WITNESS(1, "failed");
        return 0;
#else
        CHECK(inevent_get_fd() == -1 && !open_fd, "the queue is released");
        WITNESS(1, "released");
        return 0;
#endif
    }
    CHECK(inevent_get_fd() == 6 && open_fd, "the queue is open");
    for (k = 0; k < NEV; k++) {
        wd[k] = nd_range(-1, 4); mask[k] = nd_raw32();
        for (i = 0; i < 4; i++) nmv[k][i] = i < EL(k) - 1 ? (char) nd_u8() : 0;
        if (mask[k] & IN_IGNORED) { for (i = 0; i < 3; i++) if (reg[i] && dwd[dir_of[i]] == wd[k]) reg[i] = 0; }
        else if ((mask[k] & (IN_CREATE | IN_MOVED_TO)) && EL(k) > 0) {
            for (i = 0; i < 3; i++) if (reg[i] && dwd[dir_of[i]] == wd[k] && nmv[k][0] == (i == 1 ? 'y' : 'x') && !nmv[k][1]) { want[n++] = i + 1; }
        }
    }
    rc = inevent_process();
    CHECK(rc == NEV, "every event of the batch is processed");
    CHECK(n_calls == n, "one call per event for a registered path, none otherwise");
    for (i = 0; i < n && i < 4; i++) CHECK(order[i] == want[i], "the handler of that path, in order");
    WITNESS(n == (E0 > 0) + (NEV > 1 && E1 > 0), "called");
    return 0;
}
