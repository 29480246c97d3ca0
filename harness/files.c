/* C18 and C19: descriptor transfer helpers and path helpers (util-file.c) with arbitrary short
 * transfers, interruptions, end-of-file and errors from the kernel. */
#include <config.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "log.h"
#include "util-file.h"
#include "nd.h"
#define T_READN 1
#define T_WRITEN 2
#define T_LINE 3
#define T_DIRNAME 4
#define T_MKDIRS 5
void log_msg(int p, const char *f, ...) { }
void log_err(int e, const char *f, ...) { CHECK(0, "fatal error"); ASSUME(0); abort(); }
int st_fcntl(int fd, int c, ...) { return 0; }

#if TEST == T_MKDIRS
#define S MKS
#else
#define S 6
#endif
static unsigned char in[S];
static int in_len, in_pos, eof_seen, err_seen, intr, taken;
ssize_t st_read(int fd, void *buf, size_t n)
{
    int i, k;
    CHECK(fd == 3 && n > 0 && n <= S + 1, "read request within what was asked for");
    CHECK(!err_seen, "no transfer after an error");
    CHECK(!eof_seen, "no transfer after end-of-file");
    if (intr < 2 && nd_bool()) { intr++; errno = EINTR; return -1; }
    if (nd_bool()) { err_seen = 1; errno = nd_bool() ? ECONNRESET : EIO; return -1; }
    if (in_pos == in_len) { eof_seen = 1; return 0; }
    k = nd_range(1, S);
    ASSUME(k <= in_len - in_pos && (size_t) k <= n);
    for (i = 0; i < S; i++) if (i < k) ((unsigned char *) buf)[i] = in[in_pos + i];
    in_pos += k;
    return k;
}
static unsigned char outb[S];
ssize_t st_write(int fd, const void *buf, size_t n)
{
    int i, k;
    CHECK(fd == 3 && n > 0 && n <= S, "write request within what was given");
    CHECK(!err_seen, "no transfer after an error");
    if (intr < 2 && nd_bool()) { intr++; errno = EINTR; return -1; }
    if (nd_bool()) { err_seen = 1; errno = EPIPE; return -1; }
    k = nd_range(1, S);
    ASSUME((size_t) k <= n);
    for (i = 0; i < S; i++) if (i < k) { CHECK(taken + i < S, "more is written than was given"); outb[taken + i] = ((const unsigned char *) buf)[i]; }
    taken += k;
    return k;
}
#if TEST == T_READN
static void go(void)
{
    unsigned char b[S + 2];
    int i, n;
    ssize_t r;
    in_len = nd_range(0, S); n = nd_range(0, S);
    nd_bytes(in, S);
    memset(b, 0xA5, sizeof(b));
    r = read_n(3, b, n);
    for (i = n; i < S + 2; i++) CHECK(b[i] == 0xA5, "nothing is stored beyond the requested size");
    if (err_seen) { CHECK(r == -1, "an error is reported as an error"); return; }
    CHECK(r == (n < in_len ? n : in_len), "exactly the requested bytes, or all there are");
    CHECK(in_pos == r, "no byte beyond the requested ones is consumed");
    for (i = 0; i < S; i++) if (i < r) CHECK(b[i] == in[i], "bytes are those sent");
    WITNESS(r == S && intr == 2, "complete after interruptions");
    WITNESS(r == 2 && n == 3, "end-of-file");
}
#elif TEST == T_WRITEN
static void go(void)
{
    unsigned char b[S];
    int i, n;
    ssize_t r;
    n = nd_range(0, S);
    nd_bytes(b, S);
    r = write_n(3, b, n);
    if (err_seen) { CHECK(r == -1, "an error is reported as an error"); return; }
    CHECK(r == n && taken == n, "exactly the given bytes are written");
    for (i = 0; i < S; i++) if (i < n) CHECK(outb[i] == b[i], "bytes are those given, in order");
    WITNESS(r == S && intr == 2, "complete after interruptions");
}
#elif TEST == T_LINE
static void go(void)
{
    unsigned char b[S + 2];
    int i, size, want;
    ssize_t r;
    in_len = nd_range(0, S); size = nd_range(0, S + 1);
    nd_bytes(in, S);
    memset(b, 0xA5, sizeof(b));
    r = read_line(3, b, size);
    for (i = size; i < S + 2; i++) CHECK(b[i] == 0xA5, "nothing is stored beyond the given size");
    if (err_seen) { CHECK(r == -1, "an error is reported as an error"); return; }
    want = 0;
    for (i = 0; i < S; i++)
        if (want == i && i < in_len && i + 1 < size) want = (i > 0 && in[i - 1] == '\n') ? want : i + 1;
    CHECK(r == want, "the line up to and including its newline, the size limit, or end-of-file");
    CHECK(in_pos == want, "no byte beyond the line is consumed");
    for (i = 0; i < S; i++) if (i < r) CHECK(b[i] == in[i], "the line's bytes are those sent");
    if (r > 0) CHECK(b[r] == 0, "the line is terminated");
    WITNESS(r == 3 && in_len == S && intr == 2 && size == S + 1, "line inside the stream");
    WITNESS(r == S && eof_seen == 0 && size == S + 1, "line filling the buffer");
}
#elif TEST == T_DIRNAME
static void go(void)
{
    char pb[S + 2], *p = pb + 1, d[S + 3], want[S + 3];
    int i, n, e, size;
    char *r;
    pb[0] = nd_bool() ? '/' : 'x';
    n = nd_string(p, S);
    size = nd_range(0, S + 2);
    memset(d, 0x55, sizeof(d));
    r = get_dir_name(p, d, size);
    for (i = size; i < S + 3; i++) CHECK(d[i] == 0x55, "nothing is stored beyond the given size");
    /* strip trailing slashes, the last component, and the slashes before it (never the root) */
    e = n;
    while (e > 1 && p[e - 1] == '/') e--;
    while (e > 0 && p[e - 1] != '/') e--;
    while (e > 1 && p[e - 1] == '/') e--;
    if (e == 0) { want[0] = '.'; e = 1; } else for (i = 0; i < S; i++) if (i < e) want[i] = p[i];
    want[e] = 0;
    if (e + 1 > size) CHECK(r == NULL, "a directory that does not fit is an error");
    else {
        CHECK(r == d, "a directory that fits is returned");
        for (i = 0; i <= S; i++) if (i <= e) CHECK(d[i] == want[i], "the directory part of the path");
    }
    WITNESS(r && e == 3 && n == 6, "directory found");
}
#else
/* file system: the path's prefixes are missing, a directory, or something else */
static char path[S + 1];
static int plen, ends[S], nend, kind[S], mkerr[S], made;
static int comp_at[S + 1];              /* prefix length -> its last component, or -1 */
static int which(const char *p)
{
    int i, l = 0, m = -1;
    for (i = 0; i <= S; i++) {
        if (l == i && i < S && p[i]) { l = i + 1; CHECK(p[i] == path[i], "only the path and its prefixes are touched"); }
        if (l == i) { m = comp_at[i]; break; }
    }
    CHECK(m >= 0, "only whole prefixes of the path are touched");
    ASSUME(m >= 0);
    return m;
}
int st_stat(const char *p, struct stat *st)
{
    int k = which(p), j, below = 0;
    for (j = 0; j < S; j++) if (j < k && kind[j] != 1) below = 1;
    if (below || kind[k] == 0) { errno = ENOENT; return -1; }
    st->st_mode = kind[k] == 1 ? S_IFDIR | 0755 : S_IFREG | 0644;
    return 0;
}
int st_mkdir(const char *p, mode_t m)
{
    int k = which(p), j;
    for (j = 0; j < S; j++) if (j < k) CHECK(kind[j] == 1, "parents are made before their children");
    CHECK(m == 0755, "directories are made with mode 0755");
    if (kind[k]) { errno = EEXIST; return -1; }
    if (mkerr[k]) { errno = EACCES; return -1; }
    kind[k] = 1; made++;
    return 0;
}
static void go(void)
{
    int i, r, bad = 0, missing = 0, comp_at_n = 0;
    plen = nd_string(path, S);
    for (i = 0; i < S; i++) ASSUME(i >= plen || path[i] == '/' || path[i] == 'a');
    for (i = 0; i < S; i++)
        if (i < plen && path[i] != '/' && (i + 1 == plen || path[i + 1] == '/')) ends[nend++] = i + 1;
    if (plen && !nend) ends[nend++] = 1;                /* the root directory */
    comp_at[0] = -1;
    for (i = 1; i <= S; i++) {
        comp_at[i] = -1;
        if (i <= plen) {
            if (nend && ends[0] == 1 && path[0] == '/') comp_at[i] = 0;
            else if (path[i - 1] == '/') comp_at[i] = comp_at[i - 1];
            else if (i == plen || path[i] == '/') { comp_at[i] = comp_at_n++; }
        }
    }
    for (i = 0; i < S; i++) {
        kind[i] = nd_range(0, 2); mkerr[i] = nd_bool();
        if (i > 0) ASSUME(kind[i] == 0 || kind[i - 1] == 1);
        if (i < nend) { if (kind[i] == 2 || (kind[i] == 0 && mkerr[i])) bad = 1; if (kind[i] == 0) missing++; }
    }
    r = create_dirs(path);
    if (plen == 0) { CHECK(r == -1, "an empty name is an error"); return; }
    CHECK(r == (bad ? -1 : 0), "fails only when a needed component cannot be made");
    if (r == 0) {
        for (i = 0; i < S; i++) if (i < nend) CHECK(kind[i] == 1, "every prefix is a directory afterwards");
        CHECK(made == missing, "nothing else is made");
    }
    WITNESS(r == 0 && made == (S + 1) / 2, "all made");
    WITNESS(r < 0 && made == 1, "failure");
}
#endif
int main(void) { go(); return 0; }
