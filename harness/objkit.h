/* Common stubs for harnesses around the daemon's objects (server-obj.c and friends). */
#ifndef OBJKIT_H
#define OBJKIT_H
#include <config.h>
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "common.h"
#include "inevent.h"
#include "list.h"
#include "log.h"
#include "server.h"
#include "tpoll.h"
#include "util-file.h"
#include "util-str.h"
#include "util.h"
#include "nd.h"

#ifndef MAXFD
#define MAXFD 12
#endif
tpoll_t tp_global = NULL;
static short ev_armed[MAXFD];           /* poll events requested per fd */
static int fd_open[MAXFD];
static int fd_closes[MAXFD];

int tpoll_set(tpoll_t tp, int fd, short events)
{
    if (fd < 0) { errno = EINVAL; return -1; }
    CHECK(fd < MAXFD, "harness: fd range");
    ev_armed[fd] |= events;
    return 0;
}
int tpoll_clear(tpoll_t tp, int fd, short events)
{
    if (fd < 0) { errno = EINVAL; return -1; }
    CHECK(fd < MAXFD, "harness: fd range");
    ev_armed[fd] &= ~events;
    return 0;
}
int st_close(int fd)
{
    CHECK(fd >= 0 && fd < MAXFD && fd_open[fd], "close of a descriptor that is not open");
    fd_open[fd] = 0;
    fd_closes[fd]++;
    return 0;
}
/* Objects come from a small pool; see T_BUF in tools/registry.py. Redirect malloc in
 * server-obj.c to st_obj_malloc with file_defs. */
#if defined(TBUF) && !defined(REPLAY)
static unsigned char guard_byte = 0xA5;
void *obj_malloc(size_t n)
{
    void *p = malloc(n);
    if (n == sizeof(obj_t)) {
        /* the code forms (but does not use) pointers up to one buffer length past the end */
        unsigned char *b = malloc(2 * OBJ_BUF_SIZE);
        int i;
        for (i = OBJ_BUF_SIZE; i < 2 * OBJ_BUF_SIZE; i++) b[i] = guard_byte;
        ((obj_t *) p)->bufp = (void *) b;
    }
    return p;
}
void *obj_calloc(size_t a, size_t b)
{
    unsigned char (*keep)[OBJ_BUF_SIZE];
    obj_t *p = obj_malloc(a * b);
    if (a * b == sizeof(obj_t)) { keep = p->bufp; memset(p, 0, sizeof(obj_t)); memset(keep, 0, OBJ_BUF_SIZE); p->bufp = keep; }
    else memset(p, 0, a * b);
    return p;
}
static void obj_guard(obj_t *o)
{
    int i;
    unsigned char *b = (unsigned char *) o->bufp;
    for (i = OBJ_BUF_SIZE; i < 2 * OBJ_BUF_SIZE; i++) CHECK(b[i] == guard_byte, "no write outside the buffer");
}
#else
static void obj_guard(obj_t *o) { }
void *obj_malloc(size_t n) { return malloc(n); }
void *obj_calloc(size_t a, size_t b) { return calloc(a, b); }
#endif
#ifndef OWN_LOG
static int n_log_msg;
void log_msg(int priority, const char *format, ...) { n_log_msg++; }
void log_err(int errnum, const char *format, ...)
{
    CHECK(0, "the daemon is terminated by a fatal error");
    ASSUME(0);
    abort();
}
#endif
#endif
