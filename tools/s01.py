from seed import *
H='palm/src/hash_table.c'
seed('C01-a','C01',[(H,'''    previous = entry;
    entry = entry->next;

    while (entry) {
        if (table''','''    previous = entry;
    entry = entry->next;

    while (entry && entry->next) {
        if (table''')],'removing the entry that sits last in a bucket holding two or more entries','the last entry of a longer bucket can never be removed: remove returns NULL and the key stays bound',PALM,{'demo.c':'''
#include <stdlib.h>
#include "palm/hash_table.h"
static size_t h(void *k) { return 1; }
static bool e(void *a, void *b) { return a == b; }
int main() { htable_st *t = HTnew(4, h, e);
 HTinsert(t, (void*)1, (void*)10); HTinsert(t, (void*)2, (void*)20);
 if (HTremove(t, (void*)2) != (void*)20) return 1;
 return HTlookup(t, (void*)2) != 0; }
'''})
seed('C01-b','C01',[(H,'''void HTmapWithKey(struct htable *table, mapk_ft fun)
{
    for (size_t i = 0; i < table->size; i++) {''','''void HTmapWithKey(struct htable *table, mapk_ft fun)
{
    for (size_t i = 0; i < table->size && i < table->elements * 4; i++) {''')],
'mapping over a sparsely filled table (few entries, many buckets, an entry in a high bucket)','entries in high buckets of a sparse table are not mapped',PALM,{'demo.c':'''
#include "palm/hash_table.h"
static size_t h(void *k) { return (size_t)k; }
static bool e(void *a, void *b) { return a == b; }
static void *m(void *k, void *v) { return (void *)7; }
int main() { htable_st *t = HTnew(64, h, e); int n = 0;
 HTinsert(t, (void*)63, (void*)1); HTinsert(t, (void*)1, (void*)1);
 HTmapWithKey(t, m);
 return HTlookup(t, (void*)63) != (void *)7; }
'''})
