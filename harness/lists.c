/* C14: list.c against an ordinary array-based sequence (list_model.c), for every sequence of
 * operations with two live iterators. */
#include <config.h>
#include <stdlib.h>
#include "list.h"
#include "nd.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef N0
#define N0 2
#endif
#define NI (N0 + STEPS)
void *out_of_memory(void) { CHECK(0, "out of memory"); ASSUME(0); abort(); }
List m_list_create(ListDelF); void m_list_destroy(List); int m_list_is_empty(List); int m_list_count(List);
void *m_list_append(List, void *), *m_list_prepend(List, void *), *m_list_find_first(List, ListFindF, void *);
int m_list_delete_all(List, ListFindF, void *); void m_list_sort(List, ListCmpF);
void *m_list_push(List, void *), *m_list_pop(List), *m_list_peek(List), *m_list_enqueue(List, void *), *m_list_dequeue(List);
ListIterator m_list_iterator_create(List); void m_list_iterator_reset(ListIterator), m_list_iterator_destroy(ListIterator);
void *m_list_next(ListIterator), *m_list_insert(ListIterator, void *), *m_list_find(ListIterator, ListFindF, void *), *m_list_remove(ListIterator);
int m_list_delete(ListIterator);

static struct item { int key; int freed, mfreed; } it[NI];
static void del(void *x) { struct item *p = x; p->freed++; }
static void mdel(void *x) { struct item *p = x; p->mfreed++; }
static int f(void *x, void *key) { return ((struct item *) x)->key & *(int *) key; }
static int same(void *x, void *key) { return x == key; }
static int cmp(void *a, void *b) { return ((struct item *) a)->key - ((struct item *) b)->key; }

int main(void)
{
    int i, k, op, used = 0, mask, xorv, withdel = DEL, removed = 0, itmade = 0;
    List l, m;
    ListIterator li[2] = {0, 0}, mi[2] = {0, 0}, a, b;
    xorv = nd_range(0, 7);
    for (i = 0; i < NI; i++) { it[i].key = i ^ xorv; it[i].freed = it[i].mfreed = 0; }
    l = list_create(withdel ? del : NULL);
    m = m_list_create(withdel ? mdel : NULL);
    for (i = 0; i < N0; i++) { CHECK(list_append(l, &it[used]) == &it[used], "append"); m_list_append(m, &it[used]); used++; }
    for (k = 0; k < 2; k++) { li[k] = list_iterator_create(l); mi[k] = m_list_iterator_create(m); }
    /* the second iterator only watches, from an arbitrary position */
    k = nd_range(0, 1);
    for (i = 0; i < N0; i++) if (i < k) CHECK(list_next(li[1]) == m_list_next(mi[1]), "iteration");
    a = li[0]; b = mi[0];
    mask = 1 << nd_range(0, 2);
#if FIRST
    /* a compound operation, after moving the first iterator to an arbitrary position */
    k = nd_range(0, N0);
    for (i = 0; i < N0; i++) if (i < k) CHECK(list_next(a) == m_list_next(b), "iteration");
#endif
#if FIRST == 1
    list_sort(l, cmp); m_list_sort(m, cmp);
#elif FIRST == 2
    CHECK(list_delete_all(l, f, &mask) == m_list_delete_all(m, f, &mask), "delete-all returns the number deleted");
#elif FIRST == 3
    CHECK(list_find_first(l, f, &mask) == m_list_find_first(m, f, &mask), "find-first");
    CHECK(list_find(a, f, &mask) == m_list_find(b, f, &mask), "find continues the iteration");
#elif FIRST == 4
    list_iterator_destroy(a); m_list_iterator_destroy(b);
    a = li[0] = list_iterator_create(l); b = mi[0] = m_list_iterator_create(m);
#endif
    for (i = 0; i < STEPS; i++) {
        op = nd_range(0, 7);
        switch (op) {
        case 0: if (nd_bool()) { CHECK(list_append(l, &it[used]) == &it[used], "append returns the item"); }
                else CHECK(list_enqueue(l, &it[used]) == &it[used], "enqueue returns the item");
                m_list_append(m, &it[used]); used++; break;
        case 1: if (nd_bool()) { CHECK(list_prepend(l, &it[used]) == &it[used], "prepend returns the item"); }
                else CHECK(list_push(l, &it[used]) == &it[used], "push returns the item");
                m_list_prepend(m, &it[used]); used++; break;
        case 2: { void *x = nd_bool() ? list_pop(l) : list_dequeue(l); CHECK(x == m_list_pop(m), "pop and dequeue return the first item"); break; }
        case 3: CHECK(list_next(a) == m_list_next(b), "iteration"); break;
        case 4: CHECK(list_insert(a, &it[used]) == &it[used], "insert returns the item"); m_list_insert(b, &it[used]); used++; break;
        case 5: { void *x = list_remove(a), *y = m_list_remove(b); CHECK(x == y, "remove returns the last item iterated"); if (x) removed++; break; }
        case 6: CHECK(list_delete(a) == m_list_delete(b), "delete reports whether there was an item"); break;
        case 7: list_iterator_reset(a); m_list_iterator_reset(b); break;
        }
        CHECK(list_count(l) == m_list_count(m), "count");
        CHECK(list_is_empty(l) == m_list_is_empty(m), "is-empty");
        CHECK(list_peek(l) == m_list_peek(m), "peek returns the first item");
    }
    for (k = 0; k < 2; k++) CHECK(list_next(li[k]) == m_list_next(mi[k]), "live iterators go on where they were");
    list_iterator_destroy(li[1]); m_list_iterator_destroy(mi[1]);
    for (i = 0; i <= NI; i++) CHECK(list_next(li[0]) == m_list_next(mi[0]), "an iterator visits the rest in order");
    list_iterator_reset(li[0]); m_list_iterator_reset(mi[0]);
    for (i = 0; i <= NI; i++) {
        void *x = list_next(li[0]);
        CHECK(x == m_list_next(mi[0]), "the whole sequence");
    }
    for (i = 0; i < NI; i++) CHECK(it[i].freed == it[i].mfreed, "items are freed exactly when requested");
    WITNESS(list_count(l) == N0 + STEPS, "only additions");
    WITNESS(removed == 1, "one removed");
    list_destroy(l); m_list_destroy(m);
    for (i = 0; i < NI; i++) CHECK(it[i].freed == it[i].mfreed && it[i].freed <= 1, "destroying a list frees each remaining item once");
    return 0;
}
