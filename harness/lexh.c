/* C11: the lexer against an independent tokeniser, for every text of up to L bytes. */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "lex.h"
#include "nd.h"
#ifndef L
#define L 5
#endif
void *out_of_memory(void) { CHECK(0, "out of memory"); ASSUME(0); abort(); }
static char *toks[] = { "B", "Ca", "D_", NULL };
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int alpha(char c) { c = lo(c); return (c >= 'a' && c <= 'z') || c == '_'; }
static int digit(char c) { return c >= '0' && c <= '9'; }

#if TEST == 1
static char t[L + 1], orig[L + 1];
/* reference state */
static int rp, rline, reol = 1, rs, rn;         /* position, line, pending end-of-line, token text */
static char at(int i) { return i < L ? t[i] : 0; }
static int ref(void)
{
    int k, s;
    char c, d;
    if (reol) { rline++; reol = 0; }
    rs = rn = 0;
    for (k = 0; k <= L; k++) {                  /* skip blanks, comments, continued lines */
        c = at(rp);
        if (c == ' ' || c == '\t' || c == '\v' || c == '\f') rp++;
        else if (c == '#') { int j, stop = 0; rp++; for (j = 0; j < L; j++) { char e = at(rp); if (!stop && e && e != '\n' && e != '\r') rp++; else stop = 1; } }
        else if (c == '\\' && at(rp + 1) == '\n') { rp += 2; rline++; }
        else if (c == '\\' && at(rp + 1) == '\r' && at(rp + 2) == '\n') { rp += 3; rline++; }
        else break;
    }
    c = at(rp); d = at(rp + 1);
    if (!c) return LEX_EOF;
    if (c == '\r' || c == '\n') { rp += (c == '\r' && d == '\n') ? 2 : 1; reol = 1; rs = rp - 1; rn = 1; return LEX_EOL; }
    if (c == '"' || c == '\'') {
        int e = rp + 1;
        for (k = 0; k < L; k++) { char x = at(e); if (x && x != c && x != '\r' && x != '\n') e++; }
        if (at(e) != c) { rp = e; return LEX_ERR; }
        rs = rp + 1; rn = e - rp - 1; rp = e + 1;
        return LEX_STR;
    }
    s = rp;
    if (alpha(c)) {
        int w;
        for (k = 0; k < L; k++) if (alpha(at(rp)) || digit(at(rp))) rp++;
        rs = s; rn = rp - s;
        if (rn == 1 && lo(c) == 'b') return LEX_TOK_OFFSET;
        if (rn == 2 && lo(c) == 'c' && lo(d) == 'a') return LEX_TOK_OFFSET + 1;
        if (rn == 2 && lo(c) == 'd' && d == '_') return LEX_TOK_OFFSET + 2;
        return LEX_STR;
    }
    if (digit(c) || ((c == '-' || c == '+') && digit(d))) {
        rp++;
        for (k = 0; k < L; k++) if (digit(at(rp))) rp++;
        rs = s; rn = rp - s;
        return LEX_INT;
    }
    rs = s; rn = 1; rp++;
    return c;
}
int main(void)
{
    Lex l;
    int i, j, n = 0, eof = 0, eol = 0, errs = 0;
    nd_string(t, L);
    memcpy(orig, t, sizeof(t));
    l = lex_create(t, toks);
    for (i = 0; i < NTOK; i++) {
        int want = ref(), got = lex_next(l), m;
        const char *x;
        CHECK(got == want, "token kind");
        CHECK(lex_prev(l) == got, "the previous token is the one last returned");
        CHECK(lex_line(l) == rline, "line number");
        x = lex_text(l);
        if (want != LEX_EOF && want != LEX_ERR && want != LEX_EOL) {
            m = rn < LEX_MAX_STR - 1 ? rn : LEX_MAX_STR - 1;
            for (j = 0; j < L; j++) if (j < m) CHECK(x[j] == at(rs + j), "token text");
            CHECK(x[m] == 0, "token text ends where the token does");
        }
        if (got == LEX_EOF) { eof++; CHECK(rp == (int) strlen(t), "end-of-input only at the end"); }
        else { CHECK(!eof, "nothing follows end-of-input"); n++; }
        if (got == LEX_EOL) eol++;
        if (got == LEX_ERR) errs++;
    }
    if (NTOK > L + 1) CHECK(eof >= 1, "every text ends");
    for (i = 0; i <= L; i++) CHECK(t[i] == orig[i], "the text is not modified");
    WITNESS(n == (NTOK < L ? NTOK : L) && eol >= (NTOK > 2), "many tokens");
    WITNESS(errs == 1 && eol == (NTOK > 1), "unmatched quote");
    lex_destroy(l);
    return 0;
}
#else
int main(void)
{
    char s[L + 1], o[L + 1];
    int i, n = nd_string(s, L), k;
    Lex l;
    for (i = 0; i < L; i++) ASSUME(!(s[i] & 0x80));            /* documented: 7-bit text */
    memcpy(o, s, sizeof(s));
    CHECK(lex_encode(s) == s, "encoded in place");
    CHECK((int) strlen(s) == n, "same length");
    for (i = 0; i < L; i++) CHECK(s[i] != '"' && s[i] != '\'', "no quotes remain");
    CHECK(lex_decode(s) == s, "decoded in place");
    for (i = 0; i <= L; i++) CHECK(s[i] == o[i], "decodes to the original");
    WITNESS(n == L && o[0] == '"', "quote");
    l = lex_create(o, toks);
    k = nd_int(); ASSUME(k >= -1000 && k <= 1000);
    { const char *p = lex_tok_to_str(l, k);
      CHECK(p == (k >= LEX_TOK_OFFSET && k < LEX_TOK_OFFSET + 3 ? toks[k - LEX_TOK_OFFSET] : NULL), "token names"); }
    return 0;
}
#endif
