/* Weak fallbacks for functions of modules that are not linked into a harness.
 * Reaching one means the harness lacks a stub: reported as "no verdict", never as a violation. */
#include <config.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "nd.h"
#include "common.h"
#include "inevent.h"
#include "list.h"
#include "server.h"
#include "tpoll.h"
#include "util.h"
#include "util-file.h"
#include "util-net.h"
#include "util-str.h"
#define W __attribute__((weak))
#ifdef REPLAY
#define GAP(n) do { printf("HARNESS-GAP %s\n", n); fflush(NULL); _exit(91); } while (0)
#else
#define GAP(n) do { __CPROVER_assert(0, "HARNESS-GAP " n); __CPROVER_assume(0); } while (0)
#endif
#define S(ret, name, args) W ret name args { GAP(#name); return (ret) 0; }
#define V(name, args) W void name args { GAP(#name); }
S(int, open_logfile_obj, (obj_t *o))
S(int, open_process_obj, (obj_t *o))
S(int, open_serial_obj, (obj_t *o))
S(int, open_telnet_obj, (obj_t *o))
S(int, open_unixsock_obj, (obj_t *o))
S(int, open_ipmi_obj, (obj_t *o))
S(int, open_test_obj, (obj_t *o))
S(int, process_client_escapes, (obj_t *o, void *s, int n))
S(int, process_telnet_escapes, (obj_t *o, void *s, int n))
S(int, write_log_data, (obj_t *o, const void *s, int n))
S(obj_t *, get_console_logfile_obj, (obj_t *o))
V(write_telnet_data, (obj_t *o, const void *s, int n))
S(int, send_telnet_cmd, (obj_t *o, int a, int b))
S(int, send_ipmi_break, (obj_t *o))
S(int, inevent_remove, (const char *p))
V(set_tty_mode, (struct termios *t, int fd))
V(get_tty_mode, (struct termios *t, int fd))
V(get_tty_raw, (struct termios *t, int fd))
V(destroy_req, (req_t *r))
S(char *, create_string, (const char *s))
S(char *, create_short_time_string, (time_t t))
S(char *, create_long_time_string, (time_t t))
S(char *, create_time_delta_string, (time_t a, time_t b))
W struct tm *get_localtime(time_t *t, struct tm *tm) { GAP("get_localtime"); return NULL; }
V(set_fd_nonblocking, (int fd))
V(set_fd_closed_on_exec, (int fd))
V(ipmiconsole_ctx_destroy, (ipmictx_t *c))
W void *out_of_memory(void) { GAP("out_of_memory"); return NULL; }
