/* Reference model of list.h used (for the solver only) by harnesses of other modules. C14
 * checks the real list.c against the same sequence semantics; native replays of every
 * harness use the real list.c. */
#include <config.h>
#include <stdlib.h>
#include "list.h"
#include "nd.h"
#ifndef LM_CAP
#define LM_CAP 4
#endif
#ifndef LM_IT
#define LM_IT 2
#endif
struct list { int n; void *v[LM_CAP]; ListDelF del; struct listIterator *it[LM_IT]; };
struct listIterator { List l; int pos; int has; int slot; };
#ifdef REPLAY
#define LIM(c) ASSUME(c)
#else
#define LIM(c) do { __CPROVER_assert(c, "HARNESS-GAP list model capacity"); __CPROVER_assume(c); } while (0)
#endif

#if defined(LM_STATIC) && !defined(REPLAY)
static struct list lm_l0, lm_l1, lm_l2;
static struct listIterator lm_i0, lm_i1, lm_i2, lm_i3;
static int lm_nl, lm_ni;
static List lm_list(void) { int k = lm_nl++; LIM(k < 3); return k == 0 ? &lm_l0 : k == 1 ? &lm_l1 : &lm_l2; }
static struct listIterator *lm_iter(void) { int k = lm_ni++; LIM(k < 4); return k == 0 ? &lm_i0 : k == 1 ? &lm_i1 : k == 2 ? &lm_i2 : &lm_i3; }
#define LM_FREE(p) ((void) 0)
#else
#define lm_list() malloc(sizeof(struct list))
#define lm_iter() malloc(sizeof(struct listIterator))
#define LM_FREE(p) free(p)
#endif
List list_create(ListDelF f)
{
    List l = lm_list();
    int i;
    l->n = 0; l->del = f;
    for (i = 0; i < LM_IT; i++) l->it[i] = NULL;
    for (i = 0; i < LM_CAP; i++) l->v[i] = NULL;
    return l;
}
void list_destroy(List l)
{
    int i;
    if (l->del)
        for (i = 0; i < LM_CAP; i++) if (i < l->n) l->del(l->v[i]);
    l->n = -1;
    LM_FREE(l);
}
int list_count(List l) { CHECK(l->n >= 0, "use of a destroyed list"); return l->n; }
int list_is_empty(List l) { CHECK(l->n >= 0, "use of a destroyed list"); return l->n == 0; }
static void ins(List l, int k, void *x)
{
    int i;
    LIM(l->n < LM_CAP);
    CHECK(x != NULL, "NULL added to a list");
    for (i = LM_CAP - 1; i > 0; i--) if (i > k) l->v[i] = l->v[i - 1];
    for (i = 0; i < LM_CAP; i++) if (i == k) l->v[i] = x;
    l->n++;
    for (i = 0; i < LM_IT; i++) if (l->it[i]) {
        ListIterator t = l->it[i];
        int prev = t->has ? t->pos - 1 : t->pos;
        if (prev == k || k < t->pos) t->pos++;
    }
}
static void *del(List l, int k)
{
    int i;
    void *x = NULL;
    for (i = 0; i < LM_CAP; i++) if (i == k) x = l->v[i];
    for (i = 0; i + 1 < LM_CAP; i++) if (i >= k) l->v[i] = l->v[i + 1];
    l->n--;
    for (i = 0; i < LM_IT; i++) if (l->it[i]) {
        ListIterator t = l->it[i];
        if (k == t->pos || (t->has && k == t->pos - 1)) t->has = 0;
        if (k < t->pos) t->pos--;
    }
    return x;
}
void *list_append(List l, void *x) { int i; CHECK(l->n >= 0, "use of a destroyed list"); ins(l, l->n, x); return x; }
void *list_enqueue(List l, void *x) { return list_append(l, x); }
void *list_prepend(List l, void *x) { ins(l, 0, x); return x; }
void *list_push(List l, void *x) { ins(l, 0, x); return x; }
void *list_pop(List l) { return l->n ? del(l, 0) : NULL; }
void *list_dequeue(List l) { return list_pop(l); }
void *list_peek(List l) { CHECK(l->n >= 0, "use of a destroyed list"); return l->n ? l->v[0] : NULL; }
void *list_find_first(List l, ListFindF f, void *key)
{
    int i;
    CHECK(l->n >= 0, "use of a destroyed list");
    for (i = 0; i < LM_CAP; i++) if (i < l->n && f(l->v[i], key)) return l->v[i];
    return NULL;
}
int list_delete_all(List l, ListFindF f, void *key)
{
    int i, j, n = 0, live = 0;
    void *kept[LM_CAP], *gone[LM_CAP];
    CHECK(l->n >= 0, "use of a destroyed list");
    for (i = 0; i < LM_IT; i++) if (l->it[i]) live = 1;
    if (live) {
        int k = 0;
        for (i = 0; i < LM_CAP; i++) {
            if (k >= l->n) break;
            if (f(l->v[k], key)) { gone[0] = del(l, k); if (l->del) l->del(gone[0]); n++; }
            else k++;
        }
        return n;
    }
    j = 0;
    for (i = 0; i < LM_CAP; i++) if (i < l->n) {
        if (f(l->v[i], key)) gone[n++] = l->v[i];
        else kept[j++] = l->v[i];
    }
    for (i = 0; i < LM_CAP; i++) if (i < j) l->v[i] = kept[i];
    l->n = j;
    if (l->del)
        for (i = 0; i < LM_CAP; i++) if (i < n) l->del(gone[i]);
    return n;
}
void list_sort(List l, ListCmpF f)
{
    int i, j;
    for (i = 1; i < LM_CAP; i++) {
        if (i >= l->n) break;
        for (j = i; j > 0; j--) {
            if (f(l->v[j], l->v[j - 1]) < 0) { void *x = l->v[j]; l->v[j] = l->v[j - 1]; l->v[j - 1] = x; }
            else break;
        }
    }
    if (l->n > 1)
        for (i = 0; i < LM_IT; i++) if (l->it[i]) l->it[i]->pos = l->it[i]->has = 0;
}
ListIterator list_iterator_create(List l)
{
    int i;
    ListIterator t = lm_iter();
    CHECK(l->n >= 0, "use of a destroyed list");
    t->l = l; t->pos = t->has = 0; t->slot = -1;
    for (i = 0; i < LM_IT; i++) if (!l->it[i]) { l->it[i] = t; t->slot = i; break; }
    LIM(t->slot >= 0);
    return t;
}
void list_iterator_reset(ListIterator t) { t->pos = t->has = 0; }
void list_iterator_destroy(ListIterator t)
{
    int i;
    for (i = 0; i < LM_IT; i++) if (i == t->slot) t->l->it[i] = NULL;
    LM_FREE(t);
}
void *list_next(ListIterator t)
{
    void *x = NULL;
    int i;
    CHECK(t->l->n >= 0, "use of a destroyed list");
    t->has = 0;
    for (i = 0; i < LM_CAP; i++) if (i == t->pos && i < t->l->n) { x = t->l->v[i]; t->has = 1; }
    if (t->has) t->pos++;
    return x;
}
void *list_insert(ListIterator t, void *x) { ins(t->l, t->has ? t->pos - 1 : t->pos, x); return x; }
void *list_find(ListIterator t, ListFindF f, void *key)
{
    void *v;
    while ((v = list_next(t)) && !f(v, key)) ;
    return v;
}
void *list_remove(ListIterator t) { return t->has ? del(t->l, t->pos - 1) : NULL; }
int list_delete(ListIterator t)
{
    void *v = list_remove(t);
    if (v && t->l->del) t->l->del(v);
    return v != NULL;
}
