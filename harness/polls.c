/* C20/C21: the real tpoll.c. TEST: 1 watched set, 2 timers, 3 changes made by another thread while waiting. */
#include <config.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include "log.h"
#include "tpoll.h"
#include "nd.h"
#define NFD 12
#define P0 5
void log_err(int e, const char *f, ...) { CHECK(0, "the daemon is terminated by a fatal error"); ASSUME(0); abort(); }
void log_msg(int p, const char *f, ...) { }
static int inpipe;
int st_pipe(int *p) { p[0] = P0; p[1] = P0 + 1; return 0; }
int st_fcntl(int fd, int c, ...) { CHECK(fd == P0 || fd == P0 + 1, "descriptor"); return c == F_GETFL ? O_RDWR : 0; }
ssize_t st_write(int fd, const void *b, size_t n) { CHECK(fd == P0 + 1, "wake-up pipe"); inpipe += (int) n; return n; }
ssize_t st_read(int fd, void *b, size_t n)
{
    CHECK(fd == P0, "wake-up pipe");
    if (!inpipe) { errno = EAGAIN; return -1; }
    if (n > (size_t) inpipe) n = inpipe;
    inpipe -= (int) n; return n;
}
int st_close(int fd) { return 0; }
static struct timeval now;
static long sec0 = 1000;
static long us(const struct timeval *t) { return (t->tv_sec - sec0) * 1000000L + t->tv_usec; }
#define G 125L                                           /* clock granularity in microseconds */
static void advance(long lo, long hi) { (void) lo; (void) hi; }
static tpoll_t tp;
#ifdef REPLAY
void *st_realloc(void *p, size_t n) { return realloc(p, n); }
#else
void *st_realloc(void *p, size_t n)                       /* always moves; only ever used to grow the array */
{
    struct pollfd *a = malloc(n), *o = p; size_t i;
    for (i = 0; i < NALLOC && i < n / sizeof(*a); i++) a[i] = o[i];
    free(p);
    return a;
}
#endif
#if TEST == 1
int st_gettimeofday(struct timeval *t, void *z) { t->tv_sec = sec0; t->tv_usec = 0; return 0; }
static short want[NFD], got[NFD]; static int polled;
int st_poll(struct pollfd *a, nfds_t n, int tmo)
{
    int i, k, cnt[NFD] = { 0 }, r = 0; short ev[NFD] = { 0 };
    CHECK(n <= NALLOC2, "within the array");
    for (i = 0; i < NALLOC2; i++) if (i < (int) n && a[i].fd >= 0) {
        CHECK(a[i].fd < NFD, "only watched descriptors are waited for");
        for (k = 0; k < NFD; k++) if (a[i].fd == k) { cnt[k]++; ev[k] = a[i].events; }
    }
    for (k = 0; k < NFD; k++) {
        if (k == P0) { CHECK(cnt[k] == 1 && ev[k] == POLLIN, "the wake-up pipe is waited for"); continue; }
        CHECK(cnt[k] == (want[k] != 0) && ev[k] == want[k], "each watched descriptor once, with exactly its events");
    }
    for (i = 0; i < NALLOC2; i++) if (i < (int) n) {
        a[i].revents = 0;
        if (a[i].fd >= 0 && a[i].fd != P0) {
            short v = (short) (nd_u8() & (a[i].events | POLLERR | POLLHUP));
            a[i].revents = v; got[i] = v; r += v != 0;
        }
    }
    polled++;
    return r;
}
static void op(int o)          /* 0..99 set, 100.. clear, 200 zero, 201 zero timers */
{
    int fd = o % 100; short ev = (short) (nd_u8() & (POLLIN | POLLPRI | POLLOUT));
    if (o >= 300) { ev = POLLIN; o -= 300; }              /* grows the array */
    if (o < 100) { CHECK(tpoll_set(tp, fd, ev) == 0, "set"); want[fd] |= ev; }
    else if (o < 200) { CHECK(tpoll_clear(tp, fd, ev) == 0, "clear"); want[fd] &= ~ev; if (!want[fd]) got[fd] = 0; }
    else if (o == 200) { int i; CHECK(tpoll_zero(tp, TPOLL_ZERO_FDS) == 0, "zero"); for (i = 0; i < NFD; i++) want[i] = got[i] = 0; }
    else CHECK(tpoll_zero(tp, TPOLL_ZERO_TIMERS) == 0, "zero timers");
}
static void query(void)
{
    int fd; short ev = (short) (nd_u8() & (POLLIN | POLLPRI | POLLOUT | POLLERR | POLLHUP));
    for (fd = 0; fd < NFD; fd++) if (fd != P0 && fd != P0 + 1)
        CHECK((tpoll_is_set(tp, fd, ev) != 0) == ((got[fd] & ev) != 0), "a query reports what the last wait reported");
}
int main(void)
{
    static const int S[] = SEQ, E[] = SEQ2;
    unsigned i; int n, e = 0;
    tp = tpoll_create(NALLOC);
    for (i = 0; i < sizeof(S) / sizeof(S[0]); i++) op(S[i]);
    n = tpoll(tp, 0);
    for (i = 0; i < NFD; i++) e += got[i] != 0;
    CHECK(n == e, "number of ready descriptors");
    query();
    WITNESS(1, "ran");
    for (i = 0; i < sizeof(E) / sizeof(E[0]); i++) op(E[i]);
    query();
    n = tpoll(tp, 0);
    query();
    tpoll_destroy(tp);
    return 0;
}
#elif TEST == 4
/* a timer far away: the wait for it is neither cut to nothing nor longer than the time left */
static long far; static int polled;
int st_gettimeofday(struct timeval *t, void *z) { t->tv_sec = sec0; t->tv_usec = 0; return 0; }
static void cb(void *a) { CHECK(0, "never early"); }
int st_poll(struct pollfd *a, nfds_t n, int tmo)
{
    CHECK(tmo > 0, "does not spin while a timer is pending");
    CHECK(far > 4000000 || tmo <= far * 1000 + 1, "never sleeps past the next due timer");
    CHECK(far < 2000000 || tmo >= 1000, "sleeps for a useful time");
    a[2].revents = POLLIN; polled = 1;
    return 1;
}
int main(void)
{
    struct timeval tv;
    tp = tpoll_create(NALLOC);
    tpoll_set(tp, 2, POLLIN);
    far = nd_range(1, 400000000);
    tv.tv_sec = sec0 + far; tv.tv_usec = nd_bool() ? 1 : 0;
    CHECK(tpoll_timeout_absolute(tp, cb, NULL, &tv) > 0, "set");
    CHECK(tpoll(tp, -1) == 1 && polled, "event");
    WITNESS(far > 3000000, "more than a month");
    tpoll_destroy(tp);
    return 0;
}
#else
#define NT 3
static struct { int id, live, fired; long due; } tm[NT + 2]; static int nt, firing, npoll, added, evok;
static long callerdue = -1; static int MSV;
static long clk;
int st_gettimeofday(struct timeval *t, void *z)
{
    t->tv_sec = sec0 + (clk >= 1000000 ? 1 : 0) + (clk >= 2000000 ? 1 : 0) + (clk >= 3000000 ? 1 : 0) + (clk >= 4000000 ? 1 : 0);
    t->tv_usec = clk - (t->tv_sec - sec0) * 1000000;
    return 0;
}
static long first(void) { long d = -1; int i; for (i = 0; i < nt; i++) if (tm[i].live && (d < 0 || tm[i].due < d)) d = tm[i].due; return d; }
static void cb(void *arg);
static void settimer(long due)
{
    struct timeval tv; int i;
    tv.tv_sec = sec0 + (due >= 1000000) + (due >= 2000000); tv.tv_usec = due - (tv.tv_sec - sec0) * 1000000;
    i = nt++;
    tm[i].due = due; tm[i].live = 1;
    tm[i].id = tpoll_timeout_absolute(tp, cb, (void *) &tm[i], &tv);
    CHECK(tm[i].id > 0, "identifiers are positive");
    { int j; for (j = 0; j < i; j++) CHECK(!tm[j].live || tm[j].id != tm[i].id, "identifiers of live timers differ"); }
}
static void setrel(int ms)
{
    int i = nt++;
    tm[i].due = clk + ms * 1000L; tm[i].live = 1;
    tm[i].id = tpoll_timeout_relative(tp, cb, (void *) &tm[i], ms);
    CHECK(tm[i].id > 0, "identifiers are positive");
}
static void cancel(int i)
{
    int rc = tpoll_timeout_cancel(tp, tm[i].id);
    CHECK(rc == (tm[i].live ? 1 : 0), "cancelling tells whether the timer was pending");
    tm[i].live = 0;
}
static void cb(void *arg)
{
    int i;
    for (i = 0; i < nt; i++) if (arg == (void *) &tm[i]) {
        CHECK(tm[i].live, "a timer runs once, and never after being cancelled");
        CHECK(clk >= tm[i].due, "never early");
        CHECK(tm[i].due == first(), "in order of due time");
        tm[i].live = 0; tm[i].fired = 1;
        if (i == CBT && !added) {
            added = 1;
            if (CBACT == 1) setrel(RELMS);
            if (CBACT == 2) cancel(CBT == 0 ? 1 : 0);
            if (CBACT == 3) cancel(i);
        }
        return;
    }
    CHECK(0, "a callback gets its own argument");
}
int st_poll(struct pollfd *a, nfds_t n, int tmo)
{
    long d = first(), lim = d; int k;
    (void) n;
    if (callerdue >= 0 && (lim < 0 || callerdue < lim)) lim = callerdue;
    if (MSV == 0) { CHECK(tmo == 0, "no waiting when asked not to"); }
    else if (lim < 0) CHECK(tmo < 0 || tmo == 0, "nothing to wait for");
    else {
        CHECK(tmo >= 0, "a pending timer bounds the wait");
        CHECK(tmo == 0 || (tmo - 1) * 1000L <= lim - clk, "never sleeps past the next due timer");
        CHECK(lim <= clk || tmo > 0, "does not spin while a timer is pending");
    }
    for (k = 0; k < nt; k++) CHECK(!(tm[k].live && tm[k].due <= clk) || tmo == 0, "a due timer is not kept waiting");
    npoll++; a[P0].revents = 0;
#if TEST == 3
    if (npoll == 1) {                                     /* another thread, while this one waits */
        int was = inpipe, ch = 0; long f0 = first();
        if (OP3 == 0) { tpoll_set(tp, 7, POLLIN); ch = 1; }
        if (OP3 == 1) { tpoll_clear(tp, 2, POLLIN); ch = 1; }
        if (OP3 == 2) { settimer(nd_range(0, 80) * 125L + 7000 * 125L); ch = first() != f0; }
        if (OP3 == 3) { cancel(0); ch = first() != f0; }
        if (OP3 == 4) { tpoll_set(tp, 7, POLLIN); tpoll_set(tp, 8, POLLIN); ch = 1; }
        CHECK(!ch || inpipe == 1, "a wait in progress is woken when what it waits for changes");
        WITNESS(inpipe == 1, "woken");
        if (inpipe && OP3 != 4 && OP3 != 0) { a[P0].revents = POLLIN; return 1; }
        if (inpipe) { ASSUME(0); }                        /* the array may have moved: the next wait is another test */
    }
#endif
    if (tmo < 0 || npoll >= MAXPOLL || nd_bool()) {       /* an event, before the time is out */
        if (tmo > 0) { int w = nd_range(0, 15); clk += w * 125L; ASSUME(w * 125L <= tmo * 1000L); }
        a[2].revents = POLLIN; evok = 1;
        return 1;
    }
    clk += tmo * 1000L + nd_range(0, 1) * 125L;
    ASSUME(clk < 4000000);
    a[2].revents = 0; a[P0].revents = 0;
    return 0;
}
int main(void)
{
    int i, n;
    static const int MS[] = { -1, 0, 2, 700 };
    MSV = MS[MSI];
    clk = (NTIM == 3 ? nd_range(8000, 8003) : nd_range(7994, 8009)) * 125L;
    tp = tpoll_create(NFD);
    tpoll_set(tp, 2, POLLIN);
    for (i = 0; i < NTIM; i++) settimer((NTIM == 3 ? nd_range(7996, 8011) : nd_range(7980, 8043)) * 125L);
    if (NTIM == 2 && TEST == 2) { i = nd_range(0, NTIM); if (i < NTIM) cancel(i); }
    if (MSV > 0) callerdue = clk + MSV * 1000L;
    n = tpoll(tp, MSV);
    CHECK(n == evok, "number of ready descriptors");
#if TEST == 3
    if (OP3 == 1 && first() < 0) n = 1;                   /* nothing left to wait for */
#endif
    CHECK(n > 0 || MSV == 0 || (MSV > 0 && clk >= callerdue), "returns only for an event or when its time is up");
#if TEST == 2
    WITNESS(nt > 0 && tm[0].fired, "a timer ran");
#endif
    for (i = 0; i < nt; i++) { int l = tm[i].live; if (l) cancel(i); }
    tpoll_destroy(tp);
    return 0;
}
#endif
