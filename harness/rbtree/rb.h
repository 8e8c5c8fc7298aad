/* Keys, resources and the red-black reference checks. */
#pragma once
#include "../vf_alloc.h"
#include "../vf_res.h"
#include <rcpr/rbtree.h>
#include <src/rbtree/rbtree_internal.h>

RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;

typedef struct item { vf_res r; uint32_t key; } item;

static int rb_ctx_cell;
static rcpr_comparison_result rb_cmp(void* ctx, const void* a, const void* b)
{
    VF_ASSERT(ctx == &rb_ctx_cell, "the comparison gets the tree's context");
    uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b;
    if (x < y) return RCPR_COMPARE_LT;
    if (x > y) return RCPR_COMPARE_GT;
    return RCPR_COMPARE_EQ;
}
static const void* rb_key(void* ctx, const resource* r)
{
    VF_ASSERT(ctx == &rb_ctx_cell, "the key function gets the tree's context");
    return &((const item*)r)->key;
}
static void item_init(item* i, uint32_t key) { vf_res_init(&i->r); i->key = key; }

/* check shape: returns the black height, or -1. */
static bool rb_red(rbtree* t, rbtree_node* n) { return n != rbtree_nil_node(t) && n->color == RBTREE_RED; }
static int rb_shape(rbtree* t, rbtree_node* n, rbtree_node* parent, unsigned depth, unsigned maxdepth)
{
    if (n == rbtree_nil_node(t)) return 0;
    VF_ASSERT(depth < maxdepth, "the depth is bounded by the logarithm of the size");
    VF_ASSERT(rbtree_parent_node(t, n) == parent, "the parent link is the inverse of the child link");
    if (rb_red(t, n))
        VF_ASSERT(!rb_red(t, rbtree_left_node(t, n)) && !rb_red(t, rbtree_right_node(t, n)), "no red node has a red child");
    int l = rb_shape(t, rbtree_left_node(t, n), n, depth + 1, maxdepth);
    int r = rb_shape(t, rbtree_right_node(t, n), n, depth + 1, maxdepth);
    VF_ASSERT(l == r, "every path passes the same number of black nodes");
    return l + (rb_red(t, n) ? 0 : 1);
}
static unsigned rb_maxdepth(unsigned n)
{
    /* 2 * floor(log2(n + 1)) + slack for non powers of two: exact integer bound */
    unsigned d = 0;
    /* largest d with 2^(ceil(d/2)) <= n + 1 */
    while ((1u << ((d + 1 + 1) / 2)) <= n + 1) ++d;
    return d;
}
static void rb_check_shape(rbtree* t)
{
    rbtree_node* root = rbtree_root_node(t);
    VF_ASSERT(!rb_red(t, root), "the root is black");
    rb_shape(t, root, rbtree_nil_node(t), 0, rb_maxdepth((unsigned)rbtree_count(t)));
}
/* the tree holds exactly want[0..n) in this order */
static void rb_check_walk(rbtree* t, item** want, unsigned n)
{
    rbtree_node* nil = rbtree_nil_node(t);
    VF_ASSERT(rbtree_count(t) == n, "the count is the number of entries");
    rbtree_node* x = n ? rbtree_minimum_node(t, rbtree_root_node(t)) : rbtree_root_node(t);
    for (unsigned i = 0; i < n; ++i)
    {
        VF_ASSERT(x != nil, "the successor walk visits every entry");
        VF_ASSERT(rbtree_node_value(t, x) == &want[i]->r.hdr, "the successor walk is in key order");
        x = rbtree_successor_node(t, x);
    }
    VF_ASSERT(x == nil, "the successor walk ends after the maximum");
    if (n)
    {
        x = rbtree_maximum_node(t, rbtree_root_node(t));
        for (unsigned i = n; i > 0; --i)
        {
            VF_ASSERT(x != nil, "the predecessor walk visits every entry");
            VF_ASSERT(rbtree_node_value(t, x) == &want[i - 1]->r.hdr, "the predecessor walk is in reverse key order");
            x = rbtree_predecessor_node(t, x);
        }
        VF_ASSERT(x == nil, "the predecessor walk ends after the minimum");
    }
}
