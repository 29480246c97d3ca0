/* Stubs for a console's connection: resolver, sockets, timers, processes. */
#include "objkit.h"
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#define NFD 8
static int next_fd = 3, n_open;
static int new_fd(void)
{
    int fd = next_fd++;
    ASSUME(fd < MAXFD);
    fd_open[fd] = 1; ev_armed[fd] = 0; n_open++;
    return fd;
}
int cn_close(int fd)
{
    CHECK(ev_armed[fd < 0 || fd >= MAXFD ? 0 : fd] == 0, "a descriptor is not closed while it is still being watched");
    n_open--;
    return st_close(fd);
}
/* timers */
#define NTM 3
static struct { int used, id, ms; callback_f cb; void *arg; } tm_[NTM];
static int tm_next = 1, n_timers, n_sched, last_ms;
int tpoll_timeout_relative(tpoll_t tp, callback_f cb, void *arg, int ms)
{
    int i;
    for (i = 0; i < NTM; i++) if (!tm_[i].used) {
        tm_[i].used = 1; tm_[i].id = tm_next; tm_[i].cb = cb; tm_[i].arg = arg; tm_[i].ms = ms;
        n_timers++; n_sched++; last_ms = ms;
        return tm_next++;
    }
    CHECK(0, "timers pile up");
    ASSUME(0);
    return -1;
}
int tpoll_timeout_cancel(tpoll_t tp, int id)
{
    int i;
    if (id <= 0) { errno = EINVAL; return -1; }
    for (i = 0; i < NTM; i++) if (tm_[i].used && tm_[i].id == id) { tm_[i].used = 0; n_timers--; return 1; }
    return 0;
}
