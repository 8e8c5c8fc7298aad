/* More elements than sixteen bits count: COUNT elements in and out again.
 * KIND 0: list, 1: slist, 2: queue, 3: tree (ascending keys). */
#include "../vf.h"
#include "../vf_alloc.h"
#include "../vf_res.h"
#include <rcpr/list.h>
#include <rcpr/slist.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/compare.h>
RCPR_IMPORT_list;
RCPR_IMPORT_slist;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;
#ifndef COUNT
#define COUNT 66000
#endif
static vf_res* e[COUNT];
#define OK(c) VF_ASSERT((c) == STATUS_SUCCESS, "an operation on a large container succeeds")
#if KIND == 3
typedef struct elt { vf_res r; uint32_t key; } elt;
static rcpr_comparison_result cmp(void* c, const void* l, const void* r)
{
    (void)c; uint32_t a = *(const uint32_t*)l, b = *(const uint32_t*)r;
    return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* key_of(void* c, const resource* r) { (void)c; return &((const elt*)r)->key; }
#endif
void vf_main(void)
{
    vf_may_fail = false;
    bool other = vf_bool();
    if (other) VF_ASSUME(1);
#if KIND == 3
    for (unsigned i = 0; i < COUNT; ++i) { elt* x = malloc(sizeof *x); VF_ASSUME(x != NULL); vf_res_init(&x->r); x->key = 2 * i; e[i] = &x->r; }
#else
    for (unsigned i = 0; i < COUNT; ++i) { e[i] = malloc(sizeof *e[i]); VF_ASSUME(e[i] != NULL); vf_res_init(e[i]); }
#endif
    /* other: the elements come in at the head; in a tree: in descending order. */
#if KIND == 0
    list* l = NULL; OK(list_create(&l, vf_allocator_get()));
    for (unsigned i = 0; i < COUNT; ++i) OK(other ? list_insert_head(l, &e[COUNT - 1 - i]->hdr) : list_append_tail(l, &e[i]->hdr));
    VF_ASSERT(list_count(l) == COUNT, "the count is the number of elements");
#elif KIND == 1
    slist* l = NULL; OK(slist_create(&l, vf_allocator_get()));
    for (unsigned i = 0; i < COUNT; ++i) OK(other ? slist_insert_head(l, &e[COUNT - 1 - i]->hdr) : slist_append_tail(l, &e[i]->hdr));
    VF_ASSERT(slist_count(l) == COUNT, "the count is the number of elements");
#elif KIND == 2
    queue* l = NULL; OK(queue_create(&l, vf_allocator_get()));
    for (unsigned i = 0; i < COUNT; ++i) OK(other ? queue_insert(l, &e[COUNT - 1 - i]->hdr) : queue_append(l, &e[i]->hdr));
    VF_ASSERT(queue_count(l) == COUNT, "the count is the number of elements");
#else
    rbtree* l = NULL; OK(rbtree_create(&l, vf_allocator_get(), &cmp, &key_of, e));
    for (unsigned i = 0; i < COUNT; ++i) OK(rbtree_insert(l, &e[other ? COUNT - 1 - i : i]->hdr));
    VF_ASSERT(rbtree_count(l) == COUNT, "the count is the number of entries");
#endif
    VF_REACH("all in");
    for (unsigned i = 0; i < COUNT; ++i)
    {
        resource* r = NULL;
#if KIND == 0
        OK(list_pop(l, &r)); VF_ASSERT(r == &e[i]->hdr, "the elements come out in order");
        if (i % 1000 == 0) VF_ASSERT(list_count(l) == COUNT - 1 - i, "the count is the number of elements");
#elif KIND == 1
        OK(slist_pop(l, &r)); VF_ASSERT(r == &e[i]->hdr, "the elements come out in order");
        if (i % 1000 == 0) VF_ASSERT(slist_count(l) == COUNT - 1 - i, "the count is the number of elements");
#elif KIND == 2
        OK(queue_pop(l, &r)); VF_ASSERT(r == &e[i]->hdr, "the elements come out in order");
        if (i % 1000 == 0) VF_ASSERT(queue_count(l) == COUNT - 1 - i, "the count is the number of elements");
#else
        if (i % 16 == 0)
        {
            uint32_t k = 2 * i; OK(rbtree_delete(&r, l, &k)); VF_ASSERT(r == &e[i]->hdr, "a deletion gives the entry of its key out");
            VF_ASSERT(rbtree_count(l) == COUNT - 1 - i / 16, "the count is the number of entries");
            ++k; r = NULL; VF_ASSERT(rbtree_find(&r, l, &k) == ERROR_RBTREE_NOT_FOUND, "an absent key is not found");
        }
#endif
    }
#if KIND == 0
    OK(resource_release(list_resource_handle(l)));
#elif KIND == 1
    OK(resource_release(slist_resource_handle(l)));
#elif KIND == 2
    OK(resource_release(queue_resource_handle(l)));
#else
    OK(resource_release(rbtree_resource_handle(l)));
    for (unsigned i = 0; i < COUNT; ++i) VF_ASSERT(e[i]->released == (i % 16 != 0), "every entry left is released once");
#endif
    VF_ASSERT(vf_live == 0, "everything is given back");
    VF_REACH("end");
}
