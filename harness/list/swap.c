/* Two lists from two allocators, swapped, then every STEPS-long program of
 * operations on both, then released in either order.
 * -DSL: singly linked. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include "../place.h"
#ifdef SL
#include <rcpr/slist.h>
RCPR_IMPORT_slist;
#define list slist
#define list_node slist_node
#define X(f) slist_##f
#else
#include <rcpr/list.h>
RCPR_IMPORT_list;
#define X(f) list_##f
#endif

#ifdef LONG
#define N LONG
#endif
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
#define CAP (N + STEPS)
#define ALL (2 * N + STEPS)

static vf_res res[ALL + 1];
static unsigned nres;
typedef struct { resource* m[CAP + 1]; unsigned n; } seq;
static seq sq[2];
static list* ls[2];

static resource* fresh(void)
{
    vf_res* r = &res[nres++];
    vf_res_init(r);
    return &r->hdr;
}
static void ins(seq* s, unsigned at, resource* r)
{
    for (unsigned i = s->n; i > at; --i) s->m[i] = s->m[i - 1];
    s->m[at] = r;
    ++s->n;
}
static void del(seq* s, unsigned at)
{
    for (unsigned i = at; i + 1 < s->n; ++i) s->m[i] = s->m[i + 1];
    --s->n;
}
static void check(unsigned w)
{
    list* l = ls[w]; seq* s = &sq[w];
    list_node* node = NULL; list_node* last = NULL;
    VF_ASSERT(X(count)(l) == s->n, "after the swap the count is the length of the sequence");
    VF_ASSERT(X(head)(&node, l) == STATUS_SUCCESS, "head succeeds");
    for (unsigned i = 0; i < s->n; ++i)
    {
        VF_ASSERT(node != NULL, "the sequence is complete");
        resource* c = NULL;
        VF_ASSERT(X(node_child)(&c, node) == STATUS_SUCCESS && c == s->m[i], "each holds what the other held, in order");
#ifndef SL
        list_node* p = NULL;
        VF_ASSERT(list_node_prev(&p, node) == STATUS_SUCCESS && p == last, "backward links agree");
#endif
        last = node;
        list_node* t = NULL;
        VF_ASSERT(X(node_next)(&t, node) == STATUS_SUCCESS, "next succeeds");
        node = t;
    }
    VF_ASSERT(node == NULL, "traversal ends after the last element");
    VF_ASSERT(X(tail)(&node, l) == STATUS_SUCCESS && node == last, "tail is the last element");
}
static list_node* nth(list* l, unsigned k)
{
    list_node* node = NULL;
    VF_ASSERT(X(head)(&node, l) == STATUS_SUCCESS, "head succeeds");
    for (unsigned i = 0; i < k; ++i)
    {
        list_node* t = NULL;
        VF_ASSERT(X(node_next)(&t, node) == STATUS_SUCCESS, "next succeeds");
        node = t;
    }
    return node;
}
static void step(void)
{
    unsigned w = vf_below(2), op = vf_below(7);
    list* l = ls[w]; seq* s = &sq[w];
    resource* r = NULL;
    unsigned k = 0;
    if (op >= 2 && op <= 3) k = place(s->n, CAP);
    switch (op)
    {
        case 0: r = fresh(); VF_ASSERT(X(insert_head)(l, r) == STATUS_SUCCESS, "insertion succeeds"); ins(s, 0, r); break;
        case 1: r = fresh(); VF_ASSERT(X(append_tail)(l, r) == STATUS_SUCCESS, "insertion succeeds"); ins(s, s->n, r); break;
        case 2:
            r = fresh();
            VF_ASSERT(X(append)(nth(l, k), r) == STATUS_SUCCESS, "insertion succeeds");
            ins(s, k + 1, r);
            VF_REACH("append next to a node");
            break;
        case 3:
#ifdef SL
        {
            resource* want = k + 1 < s->n ? s->m[k + 1] : NULL;
            VF_ASSERT(slist_node_next_pop(nth(l, k), &r) == STATUS_SUCCESS && r == want, "popping after a node yields the element after it");
            if (want) { del(s, k + 1); VF_REACH("pop next to a node"); }
        }
#else
            r = fresh();
            VF_ASSERT(list_insert(nth(l, k), r) == STATUS_SUCCESS, "insertion succeeds");
            ins(s, k, r);
            VF_REACH("insert next to a node");
#endif
            break;
        case 4:
        {
            resource* want = s->n ? s->m[0] : NULL;
            VF_ASSERT(X(pop)(l, &r) == STATUS_SUCCESS && r == want, "pop yields the head");
            if (want) { del(s, 0); VF_REACH("pop"); }
            break;
        }
        case 5:
            VF_ASSERT(X(clear)(l) == STATUS_SUCCESS, "clear succeeds");
            for (unsigned i = 0; i < s->n; ++i) VF_ASSERT(((vf_res*)s->m[i])->released == 1, "clear releases its own elements");
            s->n = 0;
            VF_REACH("clear");
            break;
        default:
            X(swap)(ls[0], ls[1]);
            { seq t = sq[0]; sq[0] = sq[1]; sq[1] = t; }
            VF_REACH("swapped again");
            break;
    }
}
void vf_main(void)
{
    bool same = vf_bool();
    VF_ASSUME(X(create)(&ls[0], vf_allocator_get()) == STATUS_SUCCESS);
    VF_ASSUME(X(create)(&ls[1], same ? vf_allocator_get() : vf_allocator_get2()) == STATUS_SUCCESS);
    for (unsigned w = 0; w < 2; ++w)
    {
#ifdef LONG
        unsigned n = w ? LONG : LONG / 3;
#else
        unsigned n = vf_below(N + 1);
#endif
        for (unsigned i = 0; i < N; ++i)
        {
            if (i >= n) break;
            resource* r = fresh();
            VF_ASSERT(X(append_tail)(ls[w], r) == STATUS_SUCCESS, "append succeeds");
            sq[w].m[sq[w].n++] = r;
        }
    }
    X(swap)(ls[0], ls[1]);
    { seq t = sq[0]; sq[0] = sq[1]; sq[1] = t; }
    check(0); check(1);
    for (unsigned k = 0; k < STEPS; ++k) { step(); check(0); check(1); }
    unsigned f = vf_below(2), rel = vf_releases;
    VF_ASSERT(resource_release(X(resource_handle)(ls[f])) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == rel + sq[f].n, "releasing one releases only what it holds");
    for (unsigned i = 0; i < sq[f].n; ++i) VF_ASSERT(((vf_res*)sq[f].m[i])->released == 1, "releasing one releases all it holds");
    check(1 - f);
    VF_ASSERT(resource_release(X(resource_handle)(ls[1 - f])) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == rel + sq[0].n + sq[1].n, "everything is released once");
    VF_ASSERT(vf_live == 0 && vf_live2 == 0, "each block goes back to the allocator it was drawn from");
    VF_REACH("end");
}
