/* C08: attachments under sequences of operations by any client. Real code:
 * link_objs, unlink_objs, unlink_obj, shutdown_obj, read_from_obj, destroy_obj (server-obj.c),
 * process_client_escapes (server-esc.c), destroy_req (common.c). A reference relation says who
 * must be attached to what afterwards. */
#include "objkit.h"
#define NC 3
static obj_t *K[2], *C[NC], *LG;
static req_t *rq[NC];
static aux_obj_t zero_aux;
static server_conf_t conf;
static unsigned char rd[2]; static int rd_n;
static int r[2][NC], w[NC][2], gone[NC], n_freed[NC], n_steps, setup = 1;
char *create_string(const char *s) { return s ? strdup(s) : NULL; }
char *create_short_time_string(time_t t) { return strdup("t"); }
int st_snprintf(char *b, size_t n, const char *f, ...) { b[0] = 'm'; b[1] = 0; return 1; }
int write_obj_data(obj_t *o, const void *src, int len, int isInfo) { return len; }
void notify_console_objs(obj_t *c, char *m) { CHECK(c->fd >= 3, "notices are about an open console"); }
void destroy_req(req_t *q) { int i; for (i = 0; i < NC; i++) if (q == rq[i]) n_freed[i]++; }
time_t st_time(time_t *t) { if (t) *t = 1000; return 1000; }
ssize_t st_read(int fd, void *buf, size_t n)
{
    if (rd_n == 2) { ((unsigned char *) buf)[0] = rd[0]; ((unsigned char *) buf)[1] = rd[1]; }
    if (rd_n < 0) errno = ECONNRESET;
    return rd_n;
}
static int count(List l, obj_t *x)
{
    ListIterator i = list_iterator_create(l);
    obj_t *o;
    int n = 0;
    while ((o = list_next(i))) if (o == x) n++;
    list_iterator_destroy(i);
    return n;
}
static void wgone(int c) { int k; for (k = 0; k < 2; k++) r[k][c] = w[c][k] = 0; }
static void step(int c, int op)
{
    int i, k, rv;
    n_steps++;
    if (op == 3 || op == 4) { rd_n = op == 3 ? 0 : -1; }
    else { rd_n = 2; rd[0] = 0xFF; rd[1] = op == 0 ? ESC_CHAR_JOIN : op == 1 ? ESC_CHAR_FORCE : ESC_CHAR_MONITOR; }
    rv = read_from_obj(C[c]);
    /* reference */
    if (op < 3) {
        CHECK(rv >= 0, "the session stays open");
        if (!rq[c]->enableBroadcast) for (k = 0; k < 2; k++) if (r[k][c]) {
            if (op == 2) w[c][k] = 0;
            else if (!w[c][k]) {
                if (op == 1) for (i = 0; i < NC; i++) if (w[i][k]) wgone(i);
                w[c][k] = 1;
            }
        }
    } else {
        CHECK(rv == -1, "a client that has gone is removed");
        wgone(c); gone[c] = 1;
        CHECK(C[c]->fd == -1 && !fd_open[5 + c] && fd_closes[5 + c] == 1, "its connection is closed once");
        CHECK(ev_armed[5 + c] == 0, "its descriptor is no longer watched");
        destroy_obj(C[c]);              /* what mux_io does through the master list */
        CHECK(n_freed[c] == 1, "its request is released once");
    }
}
static void post(void)
{
    int i, k;
    for (k = 0; k < 2; k++) for (i = 0; i < NC; i++) {
        CHECK(count(K[k]->readers, C[i]) == r[k][i] && count(K[k]->writers, C[i]) == w[i][k], "the console records exactly the clients attached to it");
        if (!gone[i]) CHECK(count(C[i]->writers, K[k]) == r[k][i] && count(C[i]->readers, K[k]) == w[i][k], "the client records exactly the consoles it is attached to");
    }
    CHECK(count(K[0]->readers, LG) == 1 && count(LG->writers, K[0]) == 1 && list_count(LG->readers) == 0, "the log stays attached");
    CHECK(K[0]->fd == 3 && K[1]->fd == 4 && fd_open[3] && fd_open[4] && fd_open[9], "consoles and logs stay open");
    for (i = 0; i < NC; i++) {
        int att = r[0][i] + r[1][i] + w[i][0] + w[i][1];
        if (!gone[i]) {
            CHECK(fd_open[5 + i] && !n_freed[i], "the other clients stay connected");
            CHECK(C[i]->gotEOF == !att, "a client attached to nothing is on its way out, others are not");
        } else CHECK(fd_closes[5 + i] == 1 && n_freed[i] == 1, "resources are released once");
    }
}
/* every choice is explored from the state before it */
#define EXPLORE(name, next) static void name(void) { \
    int k, c = nd_range(0, NC * 5 - 1); \
    for (k = 0; k < NC * 5; k++) if (c == k) { \
        if (gone[k / 5]) ASSUME(0); \
        step(k / 5, k % 5); post(); next; STOP(); } }
#ifdef REPLAY
#define STOP() return
#else
#define STOP() ASSUME(0)
#endif
static void done(void) { WITNESS(gone[0] || gone[1] || gone[2], "a client has left");  }
EXPLORE(ex1, done())
int main(void)
{
    int i, k;
    for (i = 3; i < 10; i++) fd_open[i] = 1;
    K[0] = create_obj(&conf, "k", 3, CONMAN_OBJ_SERIAL); K[0]->aux = zero_aux;
    K[1] = create_obj(&conf, "l", 4, CONMAN_OBJ_SERIAL); K[1]->aux = zero_aux;
    LG = create_obj(&conf, "g", 9, CONMAN_OBJ_LOGFILE); LG->aux = zero_aux;
    link_objs(K[0], LG);
    for (i = 0; i < NC; i++) {
        C[i] = create_obj(&conf, "c", 5 + i, CONMAN_OBJ_CLIENT); C[i]->aux = zero_aux;
        rq[i] = calloc(1, sizeof(req_t));
        rq[i]->user = rq[i]->host = rq[i]->fqdn = "u";
        C[i]->aux.client.req = rq[i];
        ev_armed[5 + i] = POLLIN;
    }
    /* client 0: on console 0 (WR0: writing too); client 1: the same on console WHERE1; client 2: BC or reading console 0 */
    link_objs(K[0], C[0]); r[0][0] = 1;
    if (WR0) { link_objs(C[0], K[0]); w[0][0] = 1; }
    link_objs(K[WHERE1], C[1]); r[WHERE1][1] = 1;
    if (WR1) { rq[1]->enableJoin = 1; link_objs(C[1], K[WHERE1]); w[1][WHERE1] = 1; }
    if (BC) { rq[2]->enableBroadcast = 1; rq[2]->enableJoin = 1; for (k = 0; k < 2; k++) { link_objs(C[2], K[k]); w[2][k] = 1; } }
    else { link_objs(K[0], C[2]); r[0][2] = 1; }
    setup = 0;
    for (i = 0; i < NC; i++) { C[i]->aux.client.gotSuspend = nd_bool(); rq[i]->enableQuiet = nd_bool(); }
#ifdef PREOP
    step(PREOP / 5, PREOP % 5); post();
#endif
#ifdef PREOP2
    if (gone[PREOP2 / 5]) return 0;
    step(PREOP2 / 5, PREOP2 % 5); post();
#endif
    ex1();
    return 0;
}
