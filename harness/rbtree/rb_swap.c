/* Two trees with different orders and allocators, swapped, then every
 * STEPS-long program of operations on both, released in either order. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include <rcpr/rbtree.h>
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;
#ifndef N
#define N 3
#endif
#ifndef STEPS
#define STEPS 1
#endif
#define CAP (N + STEPS)
typedef struct item { vf_res r; unsigned key; } item;
static item it[2 * N + STEPS + 1];
static unsigned nit;
typedef struct { item* m[CAP + 2]; unsigned n; bool down; } seq;
static seq sq[2];
static rbtree* ts[2];
static int ctx[2];

static rcpr_comparison_result cmp0(void* c, const void* a, const void* b)
{
    VF_ASSERT(c == &ctx[0], "a tree's comparison gets its own context");
    unsigned x = *(const unsigned*)a, y = *(const unsigned*)b;
    return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* key0(void* c, const resource* r)
{
    VF_ASSERT(c == &ctx[0], "a tree's key function gets its own context");
    return &((const item*)r)->key;
}
static rcpr_comparison_result cmp1(void* c, const void* a, const void* b)
{
    VF_ASSERT(c == &ctx[1], "a tree's comparison gets its own context");
    unsigned x = *(const unsigned*)a, y = *(const unsigned*)b;
    return x > y ? RCPR_COMPARE_LT : x < y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* key1(void* c, const resource* r)
{
    VF_ASSERT(c == &ctx[1], "a tree's key function gets its own context");
    return &((const item*)r)->key;
}
static void add(unsigned w, unsigned key)
{
    seq* s = &sq[w];
    item* i = &it[nit++];
    vf_res_init(&i->r);
    i->key = key;
    VF_ASSERT(rbtree_insert(ts[w], &i->r.hdr) == STATUS_SUCCESS, "insertion succeeds");
    unsigned p = s->n;
    while (p > 0 && (s->down ? s->m[p - 1]->key < key : s->m[p - 1]->key > key)) { s->m[p] = s->m[p - 1]; --p; }
    s->m[p] = i;
    ++s->n;
}
static void check(unsigned w)
{
    rbtree* t = ts[w]; seq* s = &sq[w];
    rbtree_node* nil = rbtree_nil_node(t);
    VF_ASSERT(rbtree_count(t) == s->n, "the count is the number of entries");
    rbtree_node* x = rbtree_root_node(t);
    VF_ASSERT((x == nil) == (s->n == 0), "the tree is empty exactly when it holds nothing");
    if (s->n) x = rbtree_minimum_node(t, x);
    for (unsigned i = 0; i < s->n; ++i)
    {
        VF_ASSERT(x != nil, "the walk visits every entry");
        VF_ASSERT(rbtree_node_value(t, x) == &s->m[i]->r.hdr, "each holds what the other held, in order");
        rbtree_node* l = rbtree_left_node(t, x); rbtree_node* r = rbtree_right_node(t, x); rbtree_node* p = rbtree_parent_node(t, x);
        VF_ASSERT(l == nil || rbtree_parent_node(t, l) == x, "links are mutual");
        VF_ASSERT(r == nil || rbtree_parent_node(t, r) == x, "links are mutual");
        VF_ASSERT(p == nil || rbtree_left_node(t, p) == x || rbtree_right_node(t, p) == x, "links are mutual");
        x = rbtree_successor_node(t, x);
    }
    VF_ASSERT(x == nil, "the walk ends after the maximum");
    for (unsigned i = 0; i < s->n; ++i)
    {
        resource* r = NULL;
        VF_ASSERT(rbtree_find(&r, t, &s->m[i]->key) == STATUS_SUCCESS && r == &s->m[i]->r.hdr, "every entry is found");
    }
}
static void step(void)
{
    unsigned w = vf_below(2), op = vf_below(4);
    seq* s = &sq[w];
    switch (op)
    {
        case 0: add(w, 2 * vf_below(N + 1) + 1 + 200 * nit); VF_REACH("insert"); break;
        case 1:
        {
            unsigned k = vf_below(CAP);
            VF_ASSUME(k < s->n);
            resource* r = NULL;
            VF_ASSERT(rbtree_delete(&r, ts[w], &s->m[k]->key) == STATUS_SUCCESS && r == &s->m[k]->r.hdr, "a deletion gives the entry to the caller");
            for (unsigned j = k; j + 1 < s->n; ++j) s->m[j] = s->m[j + 1];
            --s->n;
            VF_REACH("delete");
            break;
        }
        case 2:
            VF_ASSERT(rbtree_clear(ts[w]) == STATUS_SUCCESS, "clear succeeds");
            for (unsigned i = 0; i < s->n; ++i) VF_ASSERT(s->m[i]->r.released == 1, "clear releases its own entries");
            s->n = 0;
            VF_REACH("clear");
            break;
        default:
            rbtree_swap(ts[0], ts[1]);
            { seq t = sq[0]; sq[0] = sq[1]; sq[1] = t; }
            VF_REACH("swapped again");
            break;
    }
}
void vf_main(void)
{
    VF_ASSUME(rbtree_create(&ts[0], vf_allocator_get(), &cmp0, &key0, &ctx[0]) == STATUS_SUCCESS);
    VF_ASSUME(rbtree_create(&ts[1], vf_allocator_get2(), &cmp1, &key1, &ctx[1]) == STATUS_SUCCESS);
    sq[1].down = true;
    for (unsigned w = 0; w < 2; ++w)
    {
        unsigned n = vf_below(N + 1), perm = vf_below(2);
        for (unsigned i = 0; i < n; ++i) add(w, 2 * (perm ? n - i : i + 1));
    }
    rbtree_swap(ts[0], ts[1]);
    { seq t = sq[0]; sq[0] = sq[1]; sq[1] = t; }
    check(0); check(1);
    for (unsigned k = 0; k < STEPS; ++k) { step(); check(0); check(1); }
    unsigned f = vf_below(2), rel = vf_releases;
    VF_ASSERT(resource_release(rbtree_resource_handle(ts[f])) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == rel + sq[f].n, "releasing one releases only what it holds");
    check(1 - f);
    if (vf_bool())
    {
        add(1 - f, 2 * vf_below(N + 1) + 101);
        check(1 - f);
        VF_REACH("insert after the other is gone");
    }
    VF_ASSERT(resource_release(rbtree_resource_handle(ts[1 - f])) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == rel + sq[0].n + sq[1].n, "everything is released once");
    VF_ASSERT(vf_live == 0 && vf_live2 == 0, "each block goes back to the allocator it was drawn from");
    VF_REACH("end");
}
