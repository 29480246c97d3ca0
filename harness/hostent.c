/* C32: copies of resolver answers. Real code: get_host_by_name, get_host_by_addr,
 * copy_hostent, host_name_to_addr4, host_addr4_to_name, host_name_to_cname. */
#include <config.h>
#include <errno.h>
#include <netdb.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include "util-net.h"
#include "nd.h"
#define SL 2
static struct hostent H;
static char nm[SL + 1], al[2][SL + 1]; static unsigned char ad[2][16];
static char *als[3], *ads[3];
static int found, nal, nad, n_name, n_addr;
static unsigned char *base; static int blen;
static struct hostent *answer(void)
{
    int i;
    if (!found) { h_errno = HOST_NOT_FOUND; return NULL; }
    H.h_name = nm; H.h_aliases = als; H.h_addr_list = ads;
    for (i = 0; i < 3; i++) { als[i] = i < nal ? al[i] : NULL; ads[i] = i < nad ? (char *) ad[i] : NULL; }
    return &H;
}
struct hostent *st_gethostbyname(const char *n) { n_name++; return answer(); }
struct hostent *st_gethostbyaddr(const void *a, socklen_t l, int t) { n_addr++; return answer(); }
static int in(const void *p, int n) { const unsigned char *q = p; return q >= base && q + n <= base + blen; }
static int str_in(const char *s, const char *want)
{
    int i;
    for (i = 0; i <= SL; i++) {
        if (!in(s + i, 1)) return 0;
        if (s[i] != want[i]) return 0;
        if (!want[i]) return 1;
    }
    return 0;
}
int main(void)
{
    int i, k, hl;
    found = nd_range(0, 3) != 0;
    nd_string(nm, SL); nd_string(al[0], SL); nd_string(al[1], SL);
    for (i = 0; i < 2; i++) for (k = 0; k < 16; k++) ad[i][k] = nd_u8();
    nal = NAL; nad = NAD;
    hl = HL;
    H.h_addrtype = hl == 16 ? AF_INET6 : AF_INET; H.h_length = hl;
#if TEST == 1
    {
        struct hostent *h;
        int e = -1, need;
        blen = BLEN;
        base = malloc(BLEN);
        errno = 0;
#if ADDR
        h = get_host_by_addr("abcd", 4, AF_INET, base, blen, nd_bool() ? &e : NULL);
#else
        h = get_host_by_name("x", base, blen, nd_bool() ? &e : NULL);
#endif
        need = (int) sizeof(struct hostent) + 8 * (nal + 1 + nad + 1) + nad * hl + (int) strlen(nm) + 1;
        for (i = 0; i < 2; i++) if (i < nal) need += (int) strlen(al[i]) + 1;
        if (!found) CHECK(h == NULL, "no answer, no entry");
        else if (!h) { CHECK(errno == ERANGE, "a range error"); CHECK(need > blen, "an answer that fits is returned");
#if BLEN < MINN
            WITNESS(1, "too small");
#endif
             }
        else {
            int a = 0, b = 0;
            CHECK(h == (struct hostent *) base, "the entry is in the caller's buffer");
            CHECK(h->h_addrtype == H.h_addrtype && h->h_length == hl, "type and length");
            CHECK(str_in(h->h_name, nm), "the name, in the caller's buffer");
            for (i = 0; i < 3; i++) { CHECK(in(&h->h_aliases[i], sizeof(char *)), "alias list in the caller's buffer"); if (i == nal) { CHECK(h->h_aliases[i] == NULL, "end of aliases"); break; } CHECK(str_in(h->h_aliases[i], al[i]), "alias, in the caller's buffer"); }
            for (i = 0; i < 3; i++) { CHECK(in(&h->h_addr_list[i], sizeof(char *)), "address list in the caller's buffer"); if (i == nad) { CHECK(h->h_addr_list[i] == NULL, "end of addresses"); break; }
                CHECK(in(h->h_addr_list[i], hl), "address, in the caller's buffer");
                for (k = 0; k < 16; k++) if (k < hl) CHECK((unsigned char) h->h_addr_list[i][k] == ad[i][k], "address bytes"); }
#if BLEN >= MINN
            WITNESS(need == blen || BLEN != MAXN, "a full entry");
#endif
        }
        free(base);
    }
#elif TEST == 2
    {
        struct in_addr a;
        int r = host_name_to_addr4("x", &a);
        CHECK((r == 0) == (found && hl == 4 && nad > 0), "an address is reported exactly when there is one");
        if (r == 0) for (k = 0; k < 4; k++) CHECK(((unsigned char *) &a)[k] == ad[0][k], "the first address");
        WITNESS(r == 0 || HL > 4 || !NAD, "found");
    }
#else
    {
        char d[SL + 4]; int n = nd_range(0, SL + 2), l = (int) strlen(nm);
        char *r;
        struct in_addr a;
        memset(d, 'J', sizeof(d));
#if TEST == 3
        r = host_addr4_to_name(&a, d, n);
        CHECK((r == d) == (found && l < n), "the name is reported exactly when there is one that fits");
#else
        r = host_name_to_cname("x", d, n);
        CHECK((r == d) == (found && l < n && hl == 4 && nad > 0), "the name is reported exactly when there is one that fits");
#endif
        for (i = 0; i < SL + 4; i++) if (i >= n) CHECK(d[i] == 'J', "nothing is written beyond the space given");
        if (r) CHECK(!strcmp(d, nm), "the whole name");
        WITNESS(r && l == SL || TEST == 4 && (HL > 4 || !NAD), "found");
    }
#endif
    return 0;
}
