/* A large tree: COUNT keys inserted in one of several orders and deleted in
 * one of several orders, with the full checks after every operation; or one
 * insertion, search and deletion of any key in the large tree. */
#include "rb.h"
#ifndef COUNT
#define COUNT 70
#endif
static item items[COUNT + 1];
static item* sorted[COUNT + 1];
static unsigned cnt;

static unsigned order(unsigned how, unsigned i)
{
    switch (how)
    {
        case 0: return i;
        case 1: return COUNT - 1 - i;
        case 2: return (i * 27 + 5) % COUNT;
        case 3: return (i & 1) ? COUNT - 1 - i / 2 : i / 2;
        default: return (i & 1) ? COUNT / 2 - 1 - i / 2 : COUNT / 2 + i / 2;
    }
}
static void into(item* it)
{
    unsigned p = cnt;
    while (p > 0 && sorted[p - 1]->key > it->key) { sorted[p] = sorted[p - 1]; --p; }
    sorted[p] = it;
    ++cnt;
}
static unsigned out(item* it)
{
    unsigned p = 0;
    while (sorted[p] != it) ++p;
    for (unsigned j = p; j + 1 < cnt; ++j) sorted[j] = sorted[j + 1];
    --cnt;
    return p;
}
static void check(rbtree* t)
{
    rb_check_walk(t, sorted, cnt);
#ifdef SHAPE
    rb_check_shape(t);
#endif
}
void vf_main(void)
{
    rbtree* t = NULL;
    VF_ASSUME(rbtree_create(&t, vf_allocator_get(), &rb_cmp, &rb_key, &rb_ctx_cell) == STATUS_SUCCESS);
    unsigned how = vf_below(5), back = vf_below(6);
    for (unsigned i = 0; i < COUNT; ++i)
    {
        item* it = &items[order(how, i)];
        item_init(it, 2 * order(how, i) + 2);
        VF_ASSERT(rbtree_insert(t, &it->r.hdr) == STATUS_SUCCESS, "inserting a new key succeeds");
        into(it);
        check(t);
    }
    if (back == 5)
    {
        uint32_t k = vf_u32();
        resource* r = NULL;
        unsigned at = cnt;
        for (unsigned j = 0; j < cnt; ++j) if (sorted[j]->key == k) at = j;
        status s = rbtree_find(&r, t, &k);
        if (at < cnt)
        {
            VF_ASSERT(s == STATUS_SUCCESS && r == &sorted[at]->r.hdr, "a present key is found and yields its resource");
            r = NULL;
            VF_ASSERT(rbtree_delete(&r, t, &k) == STATUS_SUCCESS && r == &sorted[at]->r.hdr, "deleting a present key gives its resource out");
            out(sorted[at]);
            VF_REACH("any present key");
        }
        else
        {
            VF_ASSERT(s == ERROR_RBTREE_NOT_FOUND && r == NULL, "an absent key is not found");
            item* it = &items[COUNT];
            item_init(it, k);
            VF_ASSERT(rbtree_insert(t, &it->r.hdr) == STATUS_SUCCESS, "inserting a new key succeeds");
            into(it);
            VF_REACH("any absent key");
        }
        check(t);
    }
    else
        for (unsigned i = 0; i < COUNT; ++i)
        {
            item* it = &items[order(back, i)];
            resource* r = NULL;
            VF_ASSERT(rbtree_delete(&r, t, &it->key) == STATUS_SUCCESS && r == &it->r.hdr, "deleting a present key gives its resource out");
            out(it);
            check(t);
            VF_REACH("deleted");
        }
    unsigned left = cnt;
    VF_ASSERT(vf_releases == 0, "no resource was released");
    VF_ASSERT(resource_release(rbtree_resource_handle(t)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == left && vf_live == 0, "releasing the tree releases every entry and every block");
    VF_REACH("end");
}
