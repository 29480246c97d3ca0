/* C03/C06/C38: what a client's byte stream does to the consoles. Real code: read_from_obj,
 * link_objs/unlink_objs/... (server-obj.c), process_client_escapes and all commands
 * (server-esc.c), list.c. The stream and its split into reads are arbitrary; an independent
 * byte-at-a-time interpretation of the stream says what each console must see, in order. */
#include "objkit.h"
#ifndef LEN
#define LEN 3
#endif
/* SHAPE 0: every byte arbitrary, but runs that change the access mode are left to SHAPE 1/2,
 * where the command bytes are arbitrary and everything else is fixed. */
#ifndef SHAPE
#define SHAPE 0
#endif
#if SHAPE
#undef LEN
#define LEN 4
#endif
#ifndef DW
#define DW 0
#endif
#define MODE_RW 0
#define MODE_RO 1
#define MODE_BC 2
#define MODE_GONE 3
#define EV_BREAK 0x100
#define EV_RESET 0x101
#define NEV (2 * LEN + 2)

#define NK (MODE == MODE_BC ? 2 : 1)
static obj_t *K[2], *C, *D;
static aux_obj_t zero_aux;
static req_t reqC, reqD;
static server_conf_t conf;
static unsigned short got[2][NEV], want[2][NEV];
static int ngot[2], nwant[2], n_quiet, n_suspend_log, in_reset, want_quiet;

int kidx(obj_t *o) { return o == K[0] ? 0 : NK == 2 && o == K[1] ? 1 : -1; }
static void rec(int k, unsigned v)
{
    CHECK(ngot[k] < NEV, "console sees more than was sent");
    if (ngot[k] < NEV) got[k][ngot[k]++] = v;
}
int write_obj_data(obj_t *o, const void *src, int len, int isInfo)
{
    int k = kidx(o), i;
    if (!src || len <= 0) return 0;
    if (k >= 0) {
        CHECK(!isInfo, "informational messages are not sent to consoles");
        CHECK(len <= LEN + 2, "console sees more than was sent");
        for (i = 0; i < len && i < LEN + 2; i++) rec(k, ((const unsigned char *) src)[i]);
    }
    return len;
}
char *create_short_time_string(time_t t) { char *p = malloc(2); p[0] = 't'; p[1] = 0; return p; }
char *create_string(const char *s) { return s ? strdup(s) : NULL; }
char *create_format_string(const char *fmt, ...) { char *p = malloc(2); n_quiet++; p[0] = 'q'; p[1] = 0; return p; }
int st_snprintf(char *b, size_t n, const char *f, ...) { CHECK(n > 1, "snprintf space"); b[0] = 'm'; b[1] = 0; return 1; }
int st_vsnprintf(char *b, size_t n, const char *f, va_list a) { CHECK(n > 1, "vsnprintf space"); b[0] = 'm'; b[1] = 0; return 1; }
int st_tcsendbreak(int fd, int d) { int i; for (i = 0; i < NK; i++) if (fd == K[i]->fd) rec(i, EV_BREAK); return 0; }
#ifndef TELNETC
int send_telnet_cmd(obj_t *o, int cmd, int opt) { rec(kidx(o), EV_BREAK); return 0; }
#endif
int send_ipmi_break(obj_t *o) { rec(kidx(o), EV_BREAK); return 0; }
int st_open(const char *p, int f, ...) { fd_open[11] = 1; return 11; }
static int next_pid = 100;
pid_t st_fork(void) { return next_pid++; }
int st_setpgid(pid_t a, pid_t b) { rec(a - 100, EV_RESET); return 0; }
int st_kill(pid_t p, int s) { return 0; }
time_t st_time(time_t *t) { if (t) *t = 1000; return 1000; }
int tpoll_timeout_relative(tpoll_t tp, callback_f cb, void *arg, int ms) { return 7; }
int st_execl(const char *p, const char *a, ...) { return -1; }
void st__exit(int c) { ASSUME(0); }
int st_dup2(int a, int b) { return b; }
obj_t *get_console_logfile_obj(obj_t *c) { return NULL; }

#if SHAPE == 0
void real_link_objs(obj_t *s, obj_t *d); void real_unlink_objs(obj_t *s, obj_t *d);
static int setup = 1;
void link_objs(obj_t *s, obj_t *d) { if (setup) real_link_objs(s, d); else ASSUME(0); }
void unlink_objs(obj_t *s, obj_t *d) { if (setup) real_unlink_objs(s, d); else ASSUME(0); }
#else
static int setup;
#endif
void notify_console_objs(obj_t *c, char *m) { }
static unsigned char stream[LEN];
static int pos, rd_n;
ssize_t st_read(int fd, void *buf, size_t n)
{
    int i;
    CHECK(fd == C->fd && n >= LEN, "reads from the client");
    for (i = 0; i < LEN; i++) if (i < rd_n) ((unsigned char *) buf)[i] = stream[pos + i];
    pos += rd_n;
    return rd_n;
}

static void wrec(int k, unsigned v) { if (nwant[k] < NEV) want[k][nwant[k]++] = v; }

int main(void)
{
    int i, k, mode = MODE, rw[2] = {0, 0}, esc, dwriter, ktype;
        reqC.user = reqC.host = reqC.fqdn = "u"; reqD = reqC;
    for (i = 3; i < 7; i++) fd_open[i] = 1;
    ktype = KTYPE;
    K[0] = create_obj(&conf, "k", 3, ktype);
    if (MODE == MODE_BC) K[1] = create_obj(&conf, "l", 4, CONMAN_OBJ_SERIAL);
    for (k = 0; k < NK; k++) K[k]->aux = zero_aux;
    if (ktype == CONMAN_OBJ_TELNET) { K[0]->aux.telnet.state = CONMAN_TELNET_UP; K[0]->aux.telnet.iac = -1; }
    C = create_obj(&conf, "c", 5, CONMAN_OBJ_CLIENT);
    C->aux = zero_aux;
    C->aux.client.req = &reqC;
#if MODE == MODE_RO || MODE == MODE_GONE
    D = create_obj(&conf, "d", 6, CONMAN_OBJ_CLIENT);
    D->aux = zero_aux;
    D->aux.client.req = &reqD;
#endif
    ev_armed[5] = POLLIN;
#ifdef RESET
    K[0]->resetCmdRef = "r"; next_pid = 100;
#endif
    /* D holds write access to K0 in some runs */
    dwriter = DW;
    if (dwriter) { link_objs(K[0], D); link_objs(D, K[0]); }
    else if (mode == MODE_GONE) { link_objs(K[0], D); }
    if (mode == MODE_RW || mode == MODE_RO) link_objs(K[0], C);
    if (mode == MODE_RW) { link_objs(C, K[0]); rw[0] = 1; }
    if (mode == MODE_BC) {
        reqC.enableBroadcast = 1;
        link_objs(C, K[0]); link_objs(C, K[1]); rw[0] = rw[1] = 1;
    }
    if (mode == MODE_GONE) {            /* displaced earlier, hung-up pending */
        link_objs(K[0], C); link_objs(C, K[0]);
        reqD.enableForce = 1;
        link_objs(D, K[0]);
    }
    esc = SHAPE ? 0 : nd_bool();                    /* an earlier read may have ended in mid-command */
    C->aux.client.gotEscape = esc;
    ngot[0] = ngot[1] = 0;
    setup = 0;

#if SHAPE == 0
    for (i = 0; i < LEN; i++) stream[i] = nd_u8();
#elif SHAPE == 1
    stream[0] = 'a'; stream[1] = 0xFF; stream[2] = nd_u8(); stream[3] = 'x';
#elif SHAPE == 2
    stream[0] = 0xFF; stream[1] = nd_u8(); stream[2] = 0xFF; stream[3] = nd_u8();
#endif
#ifndef RESET
    for (i = 0; i < LEN; i++) ASSUME(stream[i] != ESC_CHAR_RESET);
#endif
    /* independent interpretation */
    for (i = 0; i < LEN; i++) {
        unsigned char c = stream[i];
        if (!esc) {
            if (c == 0xFF) esc = 1;
            else for (k = 0; k < NK; k++) if (rw[k]) wrec(k, c);
            continue;
        }
        esc = 0;
        if (c == 0xFF) {
            for (k = 0; k < NK; k++) if (rw[k]) {
                wrec(k, c);
                if (k == 0 && ktype == CONMAN_OBJ_TELNET) wrec(k, c);   /* RFC 854: data 255 is sent doubled */
            }
        } else if (c == 'B') {
            for (k = 0; k < NK; k++) if (rw[k]) {
                if (k == 0 && ktype == CONMAN_OBJ_PROCESS) { wrec(k, '&'); wrec(k, 'B'); }
                else if (k == 0 && ktype == CONMAN_OBJ_TELNET) { wrec(k, 255); wrec(k, 243); }    /* IAC BREAK */
                else if (k == 0 && ktype == CONMAN_OBJ_TEST) ;
                else wrec(k, EV_BREAK);
            }
        } else if (c == 'D') {
            for (k = 0; k < NK; k++) if (rw[k]) wrec(k, 0x7F);
        } else if (c == 'R') {
            if (rw[0] && K[0]->resetCmdRef && !want_quiet) { wrec(0, EV_RESET); want_quiet = 1; }
        } else if (c == 'F' || c == 'J') {
            if (mode == MODE_RW || mode == MODE_RO) {
                if (c == 'F' && !rw[0]) dwriter = 0;
                rw[0] = 1;
            }
        } else if (c == 'M') {
            if (mode == MODE_RW || mode == MODE_RO) rw[0] = 0;
        }
    }
    /* the daemon reads the same stream in pieces of RD bytes */
    rd_n = RD;
    for (i = 0; i < LEN; i += RD)
        CHECK(read_from_obj(C) >= 0, "the client session stays open");
    for (k = 0; k < NK; k++) {
        CHECK(ngot[k] == nwant[k], "console sees exactly the data and commands addressed to it");
        for (i = 0; i < NEV; i++)
            if (i < ngot[k] && i < nwant[k]) CHECK(got[k][i] == want[k][i], "console sees data and commands in the order typed");
        CHECK((list_find_first(K[k]->writers, (ListFindF) find_obj, C) != NULL) == rw[k], "write access is what was requested");
        CHECK((list_find_first(C->readers, (ListFindF) find_obj, K[k]) != NULL) == rw[k], "write access is what was requested");
    }
    if (mode == MODE_RO)
        CHECK((list_find_first(K[0]->writers, (ListFindF) find_obj, D) != NULL) == dwriter, "another writer is displaced only by a force");
    CHECK(C->aux.client.gotEscape == esc, "an incomplete command is continued by the next read");
    WITNESS(nwant[0] == WITN, "full stream interpreted");
    return 0;
}
