#include <config.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "common.h"
#include "inevent.h"
#include "lex.h"
#include "list.h"
#include "log.h"
#include "server.h"
#include "tpoll.h"
#include "util.h"
#include "util-file.h"
#include "util-net.h"
#include "util-str.h"
extern tpoll_t tp_global;
static int fails;
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fails++; } } while (0)
#define DONE() do { printf(fails ? "demo: %d failed\n" : "demo: ok\n", fails); exit(fails ? 1 : 0); } while (0)
static void demo_init(void) { signal(SIGPIPE, SIG_IGN); tp_global = tpoll_create(0); log_set_file(NULL, 0, 0); log_set_syslog(NULL, 0); }
static server_conf_t *demo_conf(void) { server_conf_t *c = calloc(1, sizeof(*c)); c->objs = list_create(NULL); return c; }
/* a client attached through a socketpair; *peer is the user's end */
static obj_t *demo_client(server_conf_t *conf, const char *user, int *peer)
{
    int sv[2];
    req_t *r = calloc(1, sizeof(*r));
    socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
    set_fd_nonblocking(sv[0]); set_fd_nonblocking(sv[1]);
    *peer = sv[1];
    r->sd = sv[0]; r->user = strdup(user); r->host = strdup("host"); r->fqdn = strdup("host.fq"); r->ip = strdup("1.2.3.4");
    r->command = CONMAN_CMD_CONNECT;
    return create_client_obj(conf, r);
}
/* a console backed by a socketpair; *dev is the device's end */
static obj_t *demo_console(server_conf_t *conf, char *name, int *dev)
{
    obj_t *o;
    int sv[2];
    socketpair(AF_UNIX, SOCK_STREAM, 0, sv);
    set_fd_nonblocking(sv[0]); set_fd_nonblocking(sv[1]);
    *dev = sv[1];
    o = create_obj(conf, name, sv[0], CONMAN_OBJ_UNIXSOCK);
    o->aux.unixsock.dev = strdup("/nonexistent/sock");
    o->aux.unixsock.timer = -1;
    return o;
}
/* all that can be read from fd right now */
static int drain(int fd, char *buf, int max)
{
    int n = 0, k;
    while (n < max - 1 && (k = read(fd, buf + n, max - 1 - n)) > 0) n += k;
    buf[n] = 0;
    return n;
}
