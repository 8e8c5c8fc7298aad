/* One operation from every valid red-black tree of at most N entries with
 * symbolic strictly increasing keys (every shape and colouring the invariant
 * admits): the invariant, the order and the content hold afterwards.  By
 * induction this covers every history that keeps the tree within N entries. */
#include "rb.h"
RCPR_IMPORT_rbtree_internal;
#ifndef N
#define N 7
#endif
static item items[N + 1];
static item* sorted[N + 1];

static rbtree_node* mk(rbtree* t, unsigned i)
{
    rbtree_node* n = NULL;
    VF_ASSUME(rbtree_node_create(&n, t, &items[i].r.hdr) == STATUS_SUCCESS);
    return n;
}
/* black height bounds of a tree with n nodes are found by search: choose the
 * root position and colour, and require equal black heights. */
static int build(rbtree* t, unsigned lo, unsigned hi, rbtree_node* parent, bool parent_red, rbtree_node** out, int want)
{
    /* builds items [lo, hi) with black height want; assumes feasibility */
    if (lo == hi)
    {
        VF_ASSUME(want == 0);
        *out = rbtree_nil_node(t);
        return 0;
    }
    bool red = parent_red ? false : vf_bool();
    unsigned m = lo + vf_below(hi - lo);
    if (!red) VF_ASSUME(want > 0);
    /* prune: a subtree of black height h has at least 2^h - 1 nodes */
    unsigned h = (unsigned)(red ? want : want - 1);
    VF_ASSUME(m - lo + 1 >= (1u << h) && hi - m >= (1u << h));
    VF_ASSUME(m - lo + 1 <= (1u << (2 * h + 1)) && hi - m <= (1u << (2 * h + 1)));
    rbtree_node* n = mk(t, m);
    n->parent = parent;
    n->color = red ? RBTREE_RED : RBTREE_BLACK;
    build(t, lo, m, n, red, &n->left, (int)h);
    build(t, m + 1, hi, n, red, &n->right, (int)h);
    *out = n;
    return want;
}
void vf_main(void)
{
    rbtree* t = NULL;
    VF_ASSUME(rbtree_create(&t, vf_allocator_get(), &rb_cmp, &rb_key, &rb_ctx_cell) == STATUS_SUCCESS);
    unsigned n = vf_below(N + 1);
    for (unsigned i = 0; i < n; ++i)
    {
        item_init(&items[i], vf_u32());
        if (i) VF_ASSUME(items[i].key > items[i - 1].key);
        sorted[i] = &items[i];
    }
    int bh = (int)vf_below(5);
    VF_ASSUME(n == 0 ? bh == 0 : bh > 0);
    /* parent_red = true forces a black root */
    build(t, 0, n, rbtree_nil_node(t), true, &t->root, bh);
    t->count = n;
    if (vf_bool())
    {
        uint32_t k = vf_u32();
        unsigned p = n;
        for (unsigned j = 0; j < n; ++j) VF_ASSUME(items[j].key != k);
        item_init(&items[n], k);
        while (p > 0 && sorted[p - 1]->key > k) { sorted[p] = sorted[p - 1]; --p; }
        sorted[p] = &items[n];
        VF_ASSERT(rbtree_insert(t, &items[n].r.hdr) == STATUS_SUCCESS, "inserting a new key succeeds");
        ++n;
        VF_REACH("insert");
    }
    else
    {
        unsigned at = vf_below(N);
        VF_ASSUME(at < n);
        resource* r = NULL;
        VF_ASSERT(rbtree_delete(&r, t, &sorted[at]->key) == STATUS_SUCCESS, "deleting a present key succeeds");
        VF_ASSERT(r == &sorted[at]->r.hdr, "a deletion gives the resource out");
        for (unsigned j = at; j + 1 < n; ++j) sorted[j] = sorted[j + 1];
        --n;
        VF_REACH("delete");
    }
    rb_check_walk(t, sorted, n);
#ifdef SHAPE
    rb_check_shape(t);
#endif
    for (unsigned i = 0; i < n; ++i)
    {
        resource* r = NULL;
        VF_ASSERT(rbtree_find(&r, t, &sorted[i]->key) == STATUS_SUCCESS && r == &sorted[i]->r.hdr, "every entry is still found");
    }
    VF_ASSERT(vf_releases == 0, "no resource was released");
    VF_ASSERT(resource_release(rbtree_resource_handle(t)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == n && vf_live == 0, "releasing the tree releases every entry and every block");
    VF_REACH("end");
}
