/* The reference model under other names, so that C14 can run it next to the real list.c. */
#define list m_list
#define listIterator m_listIterator
#define List mList
#define ListIterator mListIterator
#define ListDelF mListDelF
#define ListFindF mListFindF
#define ListCmpF mListCmpF
#define list_create m_list_create
#define list_destroy m_list_destroy
#define list_is_empty m_list_is_empty
#define list_count m_list_count
#define list_append m_list_append
#define list_prepend m_list_prepend
#define list_find_first m_list_find_first
#define list_delete_all m_list_delete_all
#define list_sort m_list_sort
#define list_push m_list_push
#define list_pop m_list_pop
#define list_peek m_list_peek
#define list_enqueue m_list_enqueue
#define list_dequeue m_list_dequeue
#define list_iterator_create m_list_iterator_create
#define list_iterator_reset m_list_iterator_reset
#define list_iterator_destroy m_list_iterator_destroy
#define list_next m_list_next
#define list_insert m_list_insert
#define list_find m_list_find
#define list_remove m_list_remove
#define list_delete m_list_delete
#include "list_model.c"
