/* Models of libc functions that CBMC's own library lacks or treats too loosely.
 * Compiled only for CBMC; native replays use the real libc. */
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
#include <sys/types.h>
#include <pthread.h>

#ifndef LC_DIGITS
#define LC_DIGITS 11
#endif
#include <time.h>
#define LC_CHECK(c, m) __CPROVER_assert((c), m)

size_t strlcpy(char *dst, const char *src, size_t siz)
{
    size_t n = 0;
    while (src[n]) {
        if (n + 1 < siz) dst[n] = src[n];
        n++;
    }
    if (siz) dst[n < siz ? n : siz - 1] = 0;
    return n;
}
size_t strlcat(char *dst, const char *src, size_t siz)
{
    size_t d = 0, n = 0;
    while (d < siz && dst[d]) d++;
    while (src[n]) {
        if (d + n + 1 < siz) dst[d + n] = src[n];
        n++;
    }
    if (d < siz) dst[d + n < siz ? d + n : siz - 1] = 0;
    return d + n;
}
size_t strnlen(const char *s, size_t max)
{
    size_t n = 0;
    while (n < max && s[n]) n++;
    return n;
}
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char) c) return (void *) (p + i);
    return NULL;
}
void *memrchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    while (n-- > 0) if (p[n] == (unsigned char) c) return (void *) (p + n);
    return NULL;
}
char *strchrnul(const char *s, int c)
{
    while (*s && *s != (char) c) s++;
    return (char *) s;
}
size_t strspn(const char *s, const char *acc)
{
    size_t n = 0;
    for (; s[n]; n++) {
        size_t j = 0;
        while (acc[j] && acc[j] != s[n]) j++;
        if (!acc[j]) break;
    }
    return n;
}
size_t strcspn(const char *s, const char *rej)
{
    size_t n = 0;
    for (; s[n]; n++) {
        size_t j = 0;
        while (rej[j] && rej[j] != s[n]) j++;
        if (rej[j]) break;
    }
    return n;
}
char *strpbrk(const char *s, const char *acc)
{
    s += strcspn(s, acc);
    return *s ? (char *) s : NULL;
}
char *strtok_r(char *s, const char *delim, char **save)
{
    if (!s) s = *save;
    s += strspn(s, delim);
    if (!*s) { *save = s; return NULL; }
    char *e = s + strcspn(s, delim);
    if (*e) { *e = 0; e++; }
    *save = e;
    return s;
}
static char *lc_tok;
char *strtok(char *s, const char *delim) { return strtok_r(s, delim, &lc_tok); }

char *strerror(int e) { (void) e; return (char *) "error"; }
#undef strerror_r

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{ (void) a; m->__data.__lock = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m)
{ LC_CHECK(m->__data.__lock == 0, "mutex destroyed while locked"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    LC_CHECK(m->__data.__lock == 0, "mutex locked twice (self-deadlock)");
    __CPROVER_assume(m->__data.__lock == 0);
    m->__data.__lock = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    LC_CHECK(m->__data.__lock == 1, "mutex unlocked while not locked");
    m->__data.__lock = 0; return 0;
}

/* --- formatted output: flags 0 - width .prec hh h l ll z; conversions d i u x X c s p % --- */
static void lc_put(char *buf, size_t size, size_t *pos, char c)
{
    if (size && *pos < size - 1) buf[*pos] = c;
    (*pos)++;
}
int vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
    size_t pos = 0;
    for (; *fmt; fmt++) {
        if (*fmt != '%') { lc_put(buf, size, &pos, *fmt); continue; }
        fmt++;
        int zero = 0, left = 0, width = 0, prec = -1, lng = 0;
        while (*fmt == '0' || *fmt == '-') { if (*fmt == '0') zero = 1; else left = 1; fmt++; }
        if (*fmt == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } fmt++; }
        else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
        if (*fmt == '.') {
            fmt++; prec = 0;
            if (*fmt == '*') { prec = va_arg(ap, int); fmt++; }
            else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0');
        }
        while (*fmt == 'l' || *fmt == 'z' || *fmt == 'h') { if (*fmt != 'h') lng = 1; fmt++; }
        if (*fmt == 'd' || *fmt == 'i' || *fmt == 'u' || *fmt == 'x' || *fmt == 'X' || *fmt == 'o') {
            char tmp[24]; int n = 0, neg = 0;
            unsigned base = (*fmt == 'x' || *fmt == 'X') ? 16 : (*fmt == 'o') ? 8 : 10;
            if (lng) {
                unsigned long v;
                if (*fmt == 'd' || *fmt == 'i') {
                    long s = va_arg(ap, long);
                    neg = s < 0; v = neg ? 0UL - (unsigned long) s : (unsigned long) s;
                } else v = va_arg(ap, unsigned long);
                for (int k = 0; k < 22; k++) { unsigned d = v % base; tmp[n++] = d < 10 ? '0' + d : (*fmt == 'X' ? 'A' : 'a') + d - 10; v /= base; if (!v) break; }
            } else {
                unsigned v;
                if (*fmt == 'd' || *fmt == 'i') {
                    int s = va_arg(ap, int);
                    neg = s < 0; v = neg ? 0U - (unsigned) s : (unsigned) s;
                } else v = va_arg(ap, unsigned);
                for (int k = 0; k < LC_DIGITS; k++) { unsigned d = v % base; tmp[n++] = d < 10 ? '0' + d : (*fmt == 'X' ? 'A' : 'a') + d - 10; v /= base; if (!v) break; }
            }
            while (n < prec && n < 22) tmp[n++] = '0';
            if (!left && !zero) for (int k = n + neg; k < width; k++) lc_put(buf, size, &pos, ' ');
            if (neg) lc_put(buf, size, &pos, '-');
            if (!left && zero) for (int k = n + neg; k < width; k++) lc_put(buf, size, &pos, '0');
            int len = n;
            while (n > 0) lc_put(buf, size, &pos, tmp[--n]);
            if (left) for (int k = len + neg; k < width; k++) lc_put(buf, size, &pos, ' ');
        } else if (*fmt == 'c') {
            char c = (char) va_arg(ap, int);
            if (!left) for (int k = 1; k < width; k++) lc_put(buf, size, &pos, ' ');
            lc_put(buf, size, &pos, c);
            if (left) for (int k = 1; k < width; k++) lc_put(buf, size, &pos, ' ');
        } else if (*fmt == 's') {
            const char *s = va_arg(ap, const char *);
            int n = 0;
            if (!s) s = "(null)";
            if (!left && width) {
                int l = 0;
                while ((prec < 0 || l < prec) && s[l]) l++;
                for (; l < width; l++) lc_put(buf, size, &pos, ' ');
            }
            while ((prec < 0 || n < prec) && s[n]) lc_put(buf, size, &pos, s[n++]);
            if (left) for (; n < width; n++) lc_put(buf, size, &pos, ' ');
        } else if (*fmt == 'p') {
            (void) va_arg(ap, void *);
            lc_put(buf, size, &pos, 'p');
        } else if (*fmt == '%') {
            lc_put(buf, size, &pos, '%');
        } else {
            LC_CHECK(0, "libc model: unsupported printf conversion");
            break;
        }
    }
    if (size) buf[pos < size ? pos : size - 1] = 0;
    return (int) pos;
}
int snprintf(char *buf, size_t size, const char *fmt, ...)
{
    va_list ap; int n;
    va_start(ap, fmt);
    n = vsnprintf(buf, size, fmt, ap);
    va_end(ap);
    return n;
}
int vsprintf(char *buf, const char *fmt, va_list ap) { return vsnprintf(buf, 0x7fffffff, fmt, ap); }
int sprintf(char *buf, const char *fmt, ...)
{
    va_list ap; int n;
    va_start(ap, fmt);
    n = vsnprintf(buf, 0x7fffffff, fmt, ap);
    va_end(ap);
    return n;
}
double difftime(time_t a, time_t b) { return (double) (a - b); }
static int lc_herr;
int *__h_errno_location(void) { return &lc_herr; }
