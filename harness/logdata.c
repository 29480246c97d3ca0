/* C05: write_log_data against an independent transducer, the stream cut into reads. */
#include "objkit.h"
#ifndef LEN
#define LEN 4
#endif
#ifndef STAMP
#define STAMP 1                         /* length of a timestamp (real: 20) */
#endif
#define MARK 1                          /* first byte of a timestamp */
#define NOUT (LEN * (STAMP + 4) + 8)
static obj_t L_, *log_ = &L_, K_;
static int n_out, n_ref, n_stamp, n_rstamp, cnt_only;
#if STAMP == 1
static unsigned short out[NOUT + 64], ref[NOUT];
#endif
int write_obj_data(obj_t *o, const void *src, int len, int isInfo)
{
    int i;
    const unsigned char *s = src;
    CHECK(o == log_ && !isInfo, "console output goes to its log, as output");
    CHECK(len >= 0 && len <= OBJ_BUF_SIZE - 1, "no more than the log can hold is queued at once");
#if STAMP == 1
    for (i = 0; i < OBJ_BUF_SIZE - 1; i++) if (i < len) { if (n_out < NOUT) out[n_out] = s[i]; n_out++; }
#else
    n_out += len;
    if (len > 0) { unsigned char a = s[0], b = s[len - 1]; (void) a; (void) b; }
#endif
    return len;
}
int write_time_string(time_t t, char *dst, size_t dstlen)
{
    int i;
    CHECK(dstlen > 20, "room for the timestamp");
    n_stamp++;
    dst[0] = MARK;
    if (STAMP > 1) dst[STAMP - 1] = MARK;
    return STAMP;
}
#if STAMP == 1
static void e(unsigned c) { if (n_ref < NOUT) ref[n_ref] = c; n_ref++; }
#else
static void e(unsigned c) { n_ref++; }
#endif
static void stamp(int on) { int i; if (on) { n_rstamp++; n_ref += STAMP - 1; e(MARK); } }
int main(void)
{
    unsigned char in[LEN];
    int san, ts, i, bol = 1, cr = 0, first = 1, st0, ate = 0;
    log_->type = CONMAN_OBJ_LOGFILE;
    log_->aux.logfile.console = &K_;
    san = OPT & 1; ts = OPT >> 1;
    log_->aux.logfile.opts.enableSanitize = san;
    log_->aux.logfile.opts.enableTimestamp = ts;
    log_->aux.logfile.gotProcessing = san || ts;
    log_->aux.logfile.lineState = CONMAN_LOG_LINE_INIT;
    for (i = 0; i < LEN; i++) {
        in[i] = nd_u8();
#if STAMP == 1
        if (ts && !san) ASSUME(in[i] != MARK);      /* the marker stands for a timestamp */
#endif
    }
    for (i = 0; i < LEN; i += RD) write_log_data(log_, in + i, i + RD <= LEN ? RD : LEN - i);

    /* reference: bol = at the start of a line; cr = a carriage return is pending; first = no line end seen yet */
    for (i = 0; i < LEN; i++) {
        unsigned c = in[i];
        if (!san && !ts) { e(c); continue; }
        if (c == '\r') {
            if (cr || (bol && !first)) continue;            /* repeated CR, or the CR of a LF/CR line end */
            if (bol) stamp(ts);
            bol = 0; cr = 1;
        } else if (c == '\n') {
            if (!cr && bol) stamp(ts);
            e('\r'); e('\n'); bol = 1; cr = 0; first = 0;
        } else if (c == 0 && (cr || (bol && !first))) {
            ;                                               /* CR/NUL is a carriage return */
        } else {
            if (cr) { e('\r'); e('\n'); bol = 1; cr = 0; first = 0; }
            if (bol) stamp(ts);
            bol = 0;
            if (san) {
                unsigned d = c & 0x7F, hi = c & 0x80;
                if (d < 0x20) { e(hi ? '~' : '^'); e(d + '@'); }
                else if (d == 0x7F) { e(hi ? '~' : '^'); e('?'); }
                else { if (hi) e('`'); e(d); }
            } else e(c);
        }
    }
    CHECK(n_out == n_ref, "nothing is lost, added or run together");
    CHECK(n_stamp == n_rstamp, "one timestamp per line");
#if STAMP == 1
    for (i = 0; i < NOUT; i++) if (i < n_ref) {
        CHECK(out[i] == ref[i], "log content");
        if (san) CHECK((out[i] >= 32 && out[i] < 127) || out[i] == '\r' || out[i] == '\n' || (ts && out[i] == MARK), "log is printable");
    }
#endif
    WITNESS(n_ref == LEN * (OPT == 0 ? 1 : OPT == 1 ? 2 : STAMP + 2), "long output");
    return 0;
}
