/* A06: what a failing operation gives out.  KIND 0..5: an element is removed
 * from a container of up to N while the node's reclaim may be refused (list,
 * slist, queue, after a node of an slist, tree by key, tree by node); 6: a key
 * that is not in the tree; 7: allocations. */
#include "../vf_sys.h"
#include "../rbtree/rb.h"
#include <rcpr/list.h>
#include <rcpr/slist.h>
#include <rcpr/queue.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_uuid;
#ifndef N
#define N 3
#endif
static item it[N + 1], junk;
static list* l; static slist* sl; static queue* qu; static rbtree* t; static unsigned n;
static allocator* a;
static bool bare;       /* the first element holds no resource */
#define OK(x) VF_ASSERT((x) == STATUS_SUCCESS, "with nothing refused it succeeds")
static void fill(void)
{
    if (KIND == 0) OK(list_create(&l, a)); else if (KIND == 1 || KIND == 3) OK(slist_create(&sl, a));
    else if (KIND == 2) OK(queue_create(&qu, a)); else OK(rbtree_create(&t, a, &rb_cmp, &rb_key, &rb_ctx_cell));
    for (unsigned i = 0; i <= N; ++i) item_init(&it[i], vf_u32());
    for (unsigned i = 0; i < n; ++i)
    {
        resource* r = &it[i].r.hdr;
        if (KIND == 0) OK(list_append_tail(l, r)); else if (KIND == 1 || KIND == 3) OK(slist_append_tail(sl, r));
        else if (KIND == 2) OK(queue_append(qu, r));
        else
        {
            for (unsigned j = 0; j < i; ++j) VF_ASSUME(it[j].key != it[i].key);
            OK(rbtree_insert(t, r));
        }
    }
    if (bare)
    {
        resource* none = NULL;
        if (KIND == 0) { list_node* d; OK(list_head(&d, l)); OK(list_node_child_swap(d, &none)); }
        else { slist_node* d; OK(slist_head(&d, sl)); if (KIND == 3) OK(slist_node_next(&d, d)); OK(slist_node_child_swap(d, &none)); }
        VF_ASSERT(none != NULL, "the resource is the caller's now");
    }
}
static size_t left(void)
{
    if (KIND == 0) return list_count(l);
    if (KIND == 1 || KIND == 3) return slist_count(sl);
    if (KIND == 2) return queue_count(qu);
    return rbtree_count(t);
}
static void drop(void)
{
    if (l) OK(resource_release(list_resource_handle(l)));
    if (sl) OK(resource_release(slist_resource_handle(sl)));
    if (qu) OK(resource_release(queue_resource_handle(qu)));
    if (t) OK(resource_release(rbtree_resource_handle(t)));
}
void vf_main(void)
{
    a = vf_allocator_get();
    item_init(&junk, 0);
    if (KIND <= 5)
    {
        unsigned most = N + 1;
        n = vf_below(most);
        for (unsigned i = 0; i < N; ++i) if (n == i) break;
        unsigned at = KIND == 3 ? 1 : 0;
        bool any = n > at;
        if (KIND <= 3 && KIND != 2 && any) bare = vf_bool();
        fill();
        if (KIND >= 4) { if (!any) return; at = vf_below(n); for (unsigned i = 0; i < n; ++i) if (at == i) break; }
        resource* out = KIND >= 4 ? &junk.r.hdr : NULL;
        bool keep = KIND >= 4 && vf_bool();       /* the caller does not want it */
        it[at].r.fail_release = !bare && any && vf_bool();
        vf_reclaim_may_fail = true;
        status s;
        if (KIND == 0) s = list_pop(l, &out);
        else if (KIND == 1) s = slist_pop(sl, &out);
        else if (KIND == 2) s = queue_pop(qu, &out);
        else if (KIND == 3) { slist_node* d; OK(slist_head(&d, sl)); if (d == NULL) return; s = slist_node_next_pop(d, &out); }
        else if (KIND == 4) s = rbtree_delete(keep ? NULL : &out, t, &it[at].key);
        else { rbtree_node* d = rbtree_minimum_node(t, rbtree_root_node(t)); while (rbtree_node_value(t, d) != &it[at].r.hdr) d = rbtree_successor_node(t, d); s = rbtree_delete_node(keep ? NULL : &out, t, d); }
        vf_reclaim_may_fail = false;
        bool held = any && !bare;
        if (vf_reclaim_failures)
        {
            VF_ASSERT(any && s == (held && it[at].r.fail_release ? VF_RES_FAIL : VF_RECLAIM_FAIL), "a refused reclaim is reported");
            VF_ASSERT(keep || out == NULL, "and nothing is given out");
            VF_ASSERT(it[at].r.released == (held ? 1 : 0), "the element is released once");
            VF_REACH("refused");
        }
        else if (keep)
        {
            VF_ASSERT(s == (it[at].r.fail_release ? VF_RES_FAIL : STATUS_SUCCESS) && it[at].r.released == 1, "an element not wanted is released");
            VF_REACH("dropped");
        }
        else
        {
            VF_ASSERT(s == STATUS_SUCCESS && out == (held ? &it[at].r.hdr : NULL), "the element is given out");
            VF_ASSERT(it[at].r.released == 0, "and is the caller's");
            VF_REACH("removed");
        }
        it[at].r.fail_release = false;
        unsigned gone = it[at].r.released;
        if (any) --n;
        VF_ASSERT(left() == n, "one element fewer");
        drop();
        for (unsigned i = 0; i < n + (any ? 1 : 0); ++i)
            VF_ASSERT(i == at && any ? it[i].r.released == gone : it[i].r.released == 1, "the others stay with the container");
    }
    else if (KIND == 6)
    {
        n = N;
        fill();
        for (unsigned i = 0; i < N; ++i) VF_ASSUME(it[i].key != it[N].key);
        resource* out = &junk.r.hdr;
        status s = vf_bool() ? rbtree_find(&out, t, &it[N].key) : rbtree_delete(&out, t, &it[N].key);
        VF_ASSERT(s == ERROR_RBTREE_NOT_FOUND && out == NULL, "nothing is given out for a key not in the tree");
        VF_ASSERT(rbtree_count(t) == N, "nothing leaves the tree");
        drop();
        VF_REACH("not found");
    }
    else
    {
        static char region[128]; void* p = &junk; char* str = (char*)&junk;
        static const rcpr_uuid id = { .data = { 1 } };
        vf_may_fail = true;
        status s = rcpr_uuid_to_string(&str, a, &id);
        if (s != STATUS_SUCCESS) { VF_ASSERT(str == NULL && s == ERROR_GENERAL_OUT_OF_MEMORY, "no text is given out"); VF_REACH("no text"); }
        else VF_ASSERT(allocator_reclaim(a, str) == STATUS_SUCCESS, "the text is the caller's");
        allocator* b = (allocator*)&junk;
        size_t room = vf_below(sizeof region + 1);
        s = bump_allocator_create(&b, region, room);
        if (s != STATUS_SUCCESS) { VF_ASSERT(b == NULL, "no allocator is given out"); VF_REACH("no allocator"); return; }
        size_t want = vf_size();
        s = allocator_allocate(b, &p, want);
        if (s != STATUS_SUCCESS) { VF_ASSERT(p == NULL, "no block is given out"); VF_REACH("no block"); }
        else VF_REACH("block");
        OK(resource_release(allocator_resource_handle(b)));
    }
    VF_ASSERT(vf_live == 0, "every block is given back");
}
