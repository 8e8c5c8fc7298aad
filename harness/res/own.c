/* Containers of owned resources, any of which may fail to release.
 * KIND 0 list, 1 slist, 2 queue, 3 tree. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include "../place.h"
#include <rcpr/list.h>
#include <rcpr/slist.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
RCPR_IMPORT_list;
RCPR_IMPORT_slist;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;
#ifdef LONG
#define N LONG
#endif
#ifndef N
#define N 3
#endif

static vf_res res[N + 2], outside;
static unsigned n, failing;
static void* c;

static rcpr_comparison_result cmp(void* ctx, const void* a, const void* b)
{
    (void)ctx;
    return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* key(void* ctx, const resource* r) { (void)ctx; return r; }

static resource* handle(void)
{
    switch (KIND)
    {
        case 0: return list_resource_handle(c);
        case 1: return slist_resource_handle(c);
        case 2: return queue_resource_handle(c);
        default: return rbtree_resource_handle(c);
    }
}
static status add(resource* r)
{
    switch (KIND)
    {
        case 0: return list_append_tail(c, r);
        case 1: return slist_append_tail(c, r);
        case 2: return queue_append(c, r);
        default: return rbtree_insert(c, r);
    }
}
static size_t count(void)
{
    switch (KIND)
    {
        case 0: return list_count(c);
        case 1: return slist_count(c);
        case 2: return queue_count(c);
        default: return rbtree_count(c);
    }
}
static status clear(void)
{
    switch (KIND)
    {
        case 0: return list_clear(c);
        case 1: return slist_clear(c);
        default: return rbtree_clear(c);
    }
}
/* the first resource the container still holds; returns how many it holds,
 * checking that they are the unreleased ones in order. */
static void check_rest(void)
{
    unsigned held = 0;
    for (unsigned i = 0; i < n; ++i) if (!res[i].released) ++held;
    VF_ASSERT(count() == held, "after a failed release the container counts exactly the resources not yet released");
    if (KIND == 0)
    {
        list_node* x = NULL; list_node* last = NULL;
        VF_ASSERT(list_head(&x, c) == STATUS_SUCCESS, "head succeeds");
        for (unsigned i = 0; i < n; ++i)
            if (!res[i].released)
            {
                VF_ASSERT(x != NULL, "the rest is still in the list");
                resource* r = NULL;
                list_node* p = NULL;
                VF_ASSERT(list_node_child(&r, x) == STATUS_SUCCESS && r == &res[i].hdr, "the rest is still in the list, in order");
                VF_ASSERT(list_node_prev(&p, x) == STATUS_SUCCESS && p == last, "the rest is linked backwards too");
                last = x;
                list_node* t = NULL;
                VF_ASSERT(list_node_next(&t, x) == STATUS_SUCCESS, "next succeeds");
                x = t;
            }
        VF_ASSERT(x == NULL, "nothing but the rest is in the list");
        VF_ASSERT(list_tail(&x, c) == STATUS_SUCCESS && x == last, "the tail is the last of the rest");
    }
    else if (KIND == 1)
    {
        slist_node* x = NULL; slist_node* last = NULL;
        VF_ASSERT(slist_head(&x, c) == STATUS_SUCCESS, "head succeeds");
        for (unsigned i = 0; i < n; ++i)
            if (!res[i].released)
            {
                VF_ASSERT(x != NULL, "the rest is still in the list");
                resource* r = NULL;
                VF_ASSERT(slist_node_child(&r, x) == STATUS_SUCCESS && r == &res[i].hdr, "the rest is still in the list, in order");
                last = x;
                slist_node* t = NULL;
                VF_ASSERT(slist_node_next(&t, x) == STATUS_SUCCESS, "next succeeds");
                x = t;
            }
        VF_ASSERT(x == NULL, "nothing but the rest is in the list");
        VF_ASSERT(slist_tail(&x, c) == STATUS_SUCCESS && x == last, "the tail is the last of the rest");
    }
}
void vf_main(void)
{
    switch (KIND)
    {
        case 0: VF_ASSUME(list_create((list**)&c, vf_allocator_get()) == STATUS_SUCCESS); break;
        case 1: VF_ASSUME(slist_create((slist**)&c, vf_allocator_get()) == STATUS_SUCCESS); break;
        case 2: VF_ASSUME(queue_create((queue**)&c, vf_allocator_get()) == STATUS_SUCCESS); break;
        default: VF_ASSUME(rbtree_create((rbtree**)&c, vf_allocator_get(), &cmp, &key, NULL) == STATUS_SUCCESS); break;
    }
    unsigned empty = vf_live;
    vf_res_init(&outside);
#ifdef LONG
    n = LONG;
    unsigned f1 = place(n, n), f2 = vf_bool() ? place(n, n) : f1;
#else
    n = vf_below(N + 1);
#endif
    for (unsigned i = 0; i < n; ++i)
    {
        vf_res_init(&res[i]);
#ifdef LONG
        res[i].fail_release = i == f1 || i == f2;
#else
        res[i].fail_release = vf_bool();
#endif
        if (res[i].fail_release) ++failing;
        VF_ASSERT(add(&res[i].hdr) == STATUS_SUCCESS, "adding succeeds");
    }
    bool do_clear = KIND != 2 && vf_bool();
    bool more = false;
    unsigned seen = 0;
    status s;
    for (unsigned tries = 0; tries <= N; ++tries)
    {
        unsigned f0 = 0, f1 = 0;
        for (unsigned i = 0; i < n; ++i) if (res[i].released && res[i].fail_release) ++f0;
        s = do_clear ? clear() : resource_release(handle());
        for (unsigned i = 0; i < n; ++i) if (res[i].released && res[i].fail_release) ++f1;
        VF_ASSERT((s != STATUS_SUCCESS) == (f1 != f0), "the call fails exactly when a release failed in it");
        if (s == STATUS_SUCCESS) break;
        VF_ASSERT(s == VF_RES_FAIL, "the failure of the owned resource is reported");
        seen = f1;
        VF_REACH("failure reported");
        if (KIND == 3) break;
        check_rest();
        if (!more && n < N + 1 && vf_bool())
        {
            more = true;
            vf_res_init(&res[n]);
            VF_ASSERT(add(&res[n].hdr) == STATUS_SUCCESS, "the container can still be used");
            ++n;
            check_rest();
            VF_REACH("used after a failure");
        }
    }
    VF_ASSERT(KIND == 3 || s == STATUS_SUCCESS, "repeating the call comes to an end");
    VF_ASSERT(seen == failing, "every failure was reported");
    for (unsigned i = 0; i < n; ++i) VF_ASSERT(res[i].released == 1, "each owned resource is released exactly once");
    VF_ASSERT(outside.released == 0 && vf_releases == n, "nothing else is released");
    if (do_clear)
    {
        VF_ASSERT(vf_live == empty, "clearing reclaims every node");
        VF_ASSERT(count() == 0, "a cleared container is empty");
        VF_ASSERT(resource_release(handle()) == STATUS_SUCCESS, "an empty container is released without failure");
        VF_ASSERT(vf_releases == n, "nothing is released again");
        VF_REACH("cleared");
    }
    VF_ASSERT(vf_live == 0, "every block is reclaimed");
    VF_REACH("end");
}
