/* strtol, strtoul and sscanf: the real ones natively, models for the solver (redirect them to st_*). */
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#define MULB(v, b) ((b) == 16 ? (v) << 4 : (b) == 8 ? (v) << 3 : ((v) << 3) + ((v) << 1))
#ifdef REPLAY
long st_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long st_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int st_atoi(const char *s) { return atoi(s); }
int st_sscanf(const char *s, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = vsscanf(s, f, ap); va_end(ap); return n; }
#else
static int nl_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int nl_digit(char c, int base)
{
    int d = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'z') ? c - 'a' + 10 : (c >= 'A' && c <= 'Z') ? c - 'A' + 10 : 99;
    return d < base ? d : -1;
}
/* magnitude, sign and end of a number; 1 if there is one */
static int nl_num(const char *s, const char **end, int base, int width, unsigned long *mag, int *neg, int *over)
{
    unsigned long v = 0; int n = 0, i = 0;
    *neg = *over = 0;
    while (nl_space(s[i])) i++;
    if ((s[i] == '+' || s[i] == '-') && (width < 0 || width > 1)) { *neg = s[i] == '-'; i++; if (width > 0) width--; }
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && nl_digit(s[i + 2], 16) >= 0) { i += 2; base = 16; }
    else if (base == 0) base = s[i] == '0' ? 8 : 10;
    while (width != 0 && nl_digit(s[i], base) >= 0) {
        if (v > (ULONG_MAX >> 4)) *over = base != 10 || v > ULONG_MAX / 10 || (v == ULONG_MAX / 10 && nl_digit(s[i], 10) > 5) ? 1 : *over;
        v = MULB(v, base) + nl_digit(s[i], base); n++; i++; if (width > 0) width--;
    }
    *mag = v;
    if (n) *end = s + i;
    return n > 0;
}
long st_strtol(const char *s, char **e, int base)
{
    unsigned long v; int neg, over; const char *end = s;
    if (!nl_num(s, &end, base, -1, &v, &neg, &over)) { if (e) *e = (char *) s; return 0; }
    if (e) *e = (char *) end;
    if (over || v > (unsigned long) LONG_MAX + neg) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long) (0 - v) : (long) v;
}
unsigned long st_strtoul(const char *s, char **e, int base)
{
    unsigned long v; int neg, over; const char *end = s;
    if (!nl_num(s, &end, base, -1, &v, &neg, &over)) { if (e) *e = (char *) s; return 0; }
    if (e) *e = (char *) end;
    if (over) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0 - v : v;
}
int st_atoi(const char *s) { return (int) st_strtol(s, NULL, 10); }
static int st_vsscanf(const char *s, const char *f, va_list ap)        /* literals, %d %c %n, widths for %d */
{
    int n = 0; const char *p = s;
    for (; *f; f++) {
        int w = -1;
        if (nl_space(*f)) { while (nl_space(*p)) p++; continue; }
        if (*f != '%') { if (*p != *f) break; p++; continue; }
        f++;
        if (*f >= '0' && *f <= '9') { w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); }
        if (*f == 'd') {
            unsigned long v; int neg, over; const char *end;
            if (!nl_num(p, &end, 10, w, &v, &neg, &over)) { if (!*p && !n) n = -1; break; }
            if (over || v > LONG_MAX) v = neg ? (unsigned long) LONG_MIN : LONG_MAX; else if (neg) v = 0 - v;
            *va_arg(ap, int *) = (int) v; p = end; n++;
        } else if (*f == 'c') { if (!*p) { if (!n) n = -1; break; } *va_arg(ap, char *) = *p++; n++; }
        else if (*f == 'n') *va_arg(ap, int *) = (int) (p - s);
        else { __CPROVER_assert(0, "libc model: unsupported scanf conversion"); break; }
    }
    return n;
}
/* the names glibc's headers give these functions */
long __isoc23_strtol(const char *s, char **e, int b) { return st_strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return st_strtoul(s, e, b); }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = st_vsscanf(s, f, ap); va_end(ap); return n; }
int st_sscanf(const char *s, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = st_vsscanf(s, f, ap); va_end(ap); return n; }
#endif
