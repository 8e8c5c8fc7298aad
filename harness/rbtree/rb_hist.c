/* Public API only: N symbolic distinct keys inserted in every order, then
 * DELS deletions of arbitrary symbolic keys (present or absent), checked
 * against a sorted array after every step. */
#include "rb.h"
#ifndef N
#define N 4
#endif
#ifndef DELS
#define DELS 2
#endif
static item items[N];
static item* sorted[N];
static unsigned cnt;

static void check(rbtree* t)
{
    rb_check_walk(t, sorted, cnt);
#ifdef SHAPE
    rb_check_shape(t);
#endif
#ifndef NOFIND
    for (unsigned i = 0; i < N; ++i)
    {
        if (!items[i].r.hdr.vtable) continue;
        bool in = false;
        for (unsigned j = 0; j < cnt; ++j) if (sorted[j] == &items[i]) in = true;
        resource* r = NULL;
        status s = rbtree_find(&r, t, &items[i].key);
        if (in) VF_ASSERT(s == STATUS_SUCCESS && r == &items[i].r.hdr, "a present key is found and yields its resource");
        else VF_ASSERT(s == ERROR_RBTREE_NOT_FOUND && r == NULL, "an absent key is not found");
    }
#endif
}
void vf_main(void)
{
    rbtree* t = NULL;
    VF_ASSUME(rbtree_create(&t, vf_allocator_get(), &rb_cmp, &rb_key, &rb_ctx_cell) == STATUS_SUCCESS);
    unsigned n = vf_below(N + 1);
    vf_may_fail = true; vf_max_failures = 1;
    for (unsigned i = 0; i < n; ++i)
    {
        uint32_t k = vf_u32();
        for (unsigned j = 0; j < i; ++j) VF_ASSUME(items[j].key != k);
        item_init(&items[i], k);
        unsigned f = vf_failures;
        status s = rbtree_insert(t, &items[i].r.hdr);
        VF_ASSERT((s == STATUS_SUCCESS) == (f == vf_failures), "an insertion of a new key fails exactly when its allocation fails");
        if (s == STATUS_SUCCESS)
        {
            unsigned p = cnt;
            while (p > 0 && sorted[p - 1]->key > k) { sorted[p] = sorted[p - 1]; --p; }
            sorted[p] = &items[i];
            ++cnt;
        }
        else
        {
            VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY, "allocation failure is reported as such");
            VF_REACH("insert failed");
        }
        check(t);
    }
    vf_may_fail = false;
    unsigned rel = 0;
    if (cnt > 0)
    {
        static item again;
        unsigned at = vf_below(N), live = vf_live;
        VF_ASSUME(at < cnt);
        item_init(&again, sorted[at]->key);
        VF_ASSERT(rbtree_insert(t, &again.r.hdr) == ERROR_RBTREE_DUPLICATE, "a key that is present cannot be inserted again");
        VF_ASSERT(again.r.released == 0 && vf_live == live, "a refused insertion leaves the resource with the caller");
        check(t);
        VF_REACH("duplicate");
    }
    for (unsigned d = 0; d < DELS; ++d)
    {
        uint32_t k = vf_u32();
        bool keep = vf_bool(), bynode = false;
        unsigned at = cnt;
        for (unsigned j = 0; j < cnt; ++j) if (sorted[j]->key == k) at = j;
        if (at < cnt) bynode = vf_bool();
        resource* r = &items[0].r.hdr;
        status s;
        if (bynode)
        {
            rbtree_node* x = rbtree_minimum_node(t, rbtree_root_node(t));
            for (unsigned i = 0; i < at; ++i) x = rbtree_successor_node(t, x);
            s = rbtree_delete_node(keep ? &r : NULL, t, x);
        }
        else s = rbtree_delete(keep ? &r : NULL, t, &k);
        if (at == cnt)
        {
            VF_ASSERT(s == ERROR_RBTREE_NOT_FOUND, "deleting an absent key reports not found");
            VF_ASSERT(!keep || r == NULL, "deleting an absent key gives nothing out");
            VF_REACH("delete absent");
        }
        else
        {
            VF_ASSERT(s == STATUS_SUCCESS, "deleting a present key succeeds");
            if (keep)
            {
                VF_ASSERT(r == &sorted[at]->r.hdr && sorted[at]->r.released == 0, "a deletion gives the resource to the caller");
                VF_REACH("delete to caller");
            }
            else
            {
                VF_ASSERT(sorted[at]->r.released == 1, "a deletion without destination releases the resource");
                ++rel;
                VF_REACH("delete and release");
            }
            for (unsigned j = at; j + 1 < cnt; ++j) sorted[j] = sorted[j + 1];
            --cnt;
        }
        check(t);
    }
    VF_ASSERT(vf_releases == rel, "only deleted resources were released");
    if (vf_bool())
    {
        VF_ASSERT(rbtree_clear(t) == STATUS_SUCCESS, "clear succeeds");
        VF_ASSERT(vf_releases == rel + cnt, "clear releases every entry");
        rel += cnt;
        cnt = 0;
        check(t);
        VF_REACH("clear");
    }
    VF_ASSERT(resource_release(rbtree_resource_handle(t)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == rel + cnt, "release releases what is left and nothing else");
    VF_ASSERT(vf_live == 0, "no block leaks");
    VF_REACH("end");
}
