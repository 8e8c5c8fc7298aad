/* Singly linked list as a sequence: from every list of length <= N, every
 * STEPS-long program of public operations. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include "../place.h"
#include <rcpr/slist.h>

RCPR_IMPORT_slist;

#ifdef LONG
#define N LONG
#endif
#ifndef N
#define N 3
#endif
#ifndef STEPS
#define STEPS 1
#endif
#define CAP (N + STEPS)

static vf_res res[CAP + 1];
static unsigned nres;
static resource* model[CAP + 1];
static unsigned len;

static resource* fresh(void)
{
    vf_res* r = &res[nres++];
    vf_res_init(r);
    return &r->hdr;
}
static void model_insert(unsigned at, resource* r)
{
    for (unsigned i = len; i > at; --i) model[i] = model[i - 1];
    model[at] = r;
    ++len;
}
static void model_remove(unsigned at)
{
    for (unsigned i = at; i + 1 < len; ++i) model[i] = model[i + 1];
    --len;
}
static void check(slist* l)
{
    slist_node* node = NULL; slist_node* last = NULL; slist_node* tmp = NULL;
    VF_ASSERT(slist_count(l) == len, "count is the number of elements");
    VF_ASSERT(slist_head(&node, l) == STATUS_SUCCESS, "head succeeds");
    for (unsigned i = 0; i < len; ++i)
    {
        VF_ASSERT(node != NULL, "the list has an element at every index below its count");
        resource* c = NULL;
        VF_ASSERT(slist_node_child(&c, node) == STATUS_SUCCESS && c == model[i], "traversal yields the sequence");
        last = node;
        tmp = NULL;
        VF_ASSERT(slist_node_next(&tmp, node) == STATUS_SUCCESS, "next succeeds");
        node = tmp;
    }
    VF_ASSERT(node == NULL, "traversal ends after the last element");
    VF_ASSERT(slist_tail(&node, l) == STATUS_SUCCESS && node == last, "tail is the last element");
}
static slist_node* nth(slist* l, unsigned k)
{
    slist_node* node = NULL;
    VF_ASSERT(slist_head(&node, l) == STATUS_SUCCESS, "head succeeds");
    for (unsigned i = 0; i < k; ++i)
    {
        slist_node* t = NULL;
        VF_ASSERT(slist_node_next(&t, node) == STATUS_SUCCESS, "next succeeds");
        node = t;
    }
    return node;
}
static void step(slist* l)
{
    unsigned op = vf_below(7);
    status s;
    resource* r = NULL;
    unsigned failed = vf_failures;
    vf_may_fail = true;
    unsigned k = 0;
    if (op == 2 || op == 3 || op == 4)
    {
        k = place(len, CAP);
    }
    switch (op)
    {
    case 0:
        r = fresh();
        s = slist_insert_head(l, r);
        if (s == STATUS_SUCCESS) { model_insert(0, r); VF_REACH("insert_head"); }
        break;
    case 1:
        r = fresh();
        s = slist_append_tail(l, r);
        if (s == STATUS_SUCCESS) { model_insert(len, r); VF_REACH("append_tail"); }
        break;
    case 2:
        r = fresh();
        s = slist_append(nth(l, k), r);
        if (s == STATUS_SUCCESS) { model_insert(k + 1, r); VF_REACH("append"); }
        break;
    case 3:
    {
        resource* want = k + 1 < len ? model[k + 1] : NULL;
        s = slist_node_next_pop(nth(l, k), &r);
        VF_ASSERT(s == STATUS_SUCCESS, "popping the next element succeeds");
        VF_ASSERT(r == want, "popping after a node yields the element after it, or NULL after the last");
        if (k + 1 < len) { model_remove(k + 1); VF_REACH("next_pop"); }
        return;
    }
    case 4:
    {
        resource* want = model[k];
        r = vf_bool() ? fresh() : NULL;
        resource* in = r;
        s = slist_node_child_swap(nth(l, k), &r);
        VF_ASSERT(s == STATUS_SUCCESS, "child swap succeeds");
        VF_ASSERT(r == want, "child swap hands the old child to the caller");
        model[k] = in;
        VF_REACH("child_swap");
        return;
    }
    case 5:
    {
        resource* want = len ? model[0] : NULL;
        s = slist_pop(l, &r);
        VF_ASSERT(s == STATUS_SUCCESS, "pop succeeds");
        VF_ASSERT(r == want, "pop yields the head element, or NULL from an empty list");
        if (len) { model_remove(0); VF_REACH("pop"); }
        return;
    }
    default:
        s = slist_clear(l);
        VF_ASSERT(s == STATUS_SUCCESS, "clear succeeds");
        for (unsigned i = 0; i < len; ++i)
            if (model[i]) VF_ASSERT(((vf_res*)model[i])->released == 1, "clear releases every element");
        len = 0;
        VF_REACH("clear");
        return;
    }
    VF_ASSERT((s == STATUS_SUCCESS) == (vf_failures == failed), "an insertion fails exactly when its allocation fails");
    if (s != STATUS_SUCCESS)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY, "allocation failure is reported as such");
        VF_REACH("insertion failed");
    }
}
void vf_main(void)
{
    slist* l = NULL;
    VF_ASSUME(slist_create(&l, vf_allocator_get()) == STATUS_SUCCESS);
#ifdef LONG
    unsigned n = LONG;
#else
    unsigned n = vf_below(N + 1);
#endif
    for (unsigned i = 0; i < N; ++i)
    {
        if (i >= n) break;
        resource* r = fresh();
        VF_ASSERT(slist_append_tail(l, r) == STATUS_SUCCESS, "append succeeds when memory is available");
        model_insert(len, r);
    }
    for (unsigned k = 0; k < STEPS; ++k) { step(l); check(l); }
    unsigned before = vf_releases, held = 0;
    for (unsigned i = 0; i < len; ++i) if (model[i]) ++held;
    VF_ASSERT(resource_release(slist_resource_handle(l)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == before + held, "releasing the list releases what it owns and nothing else");
    for (unsigned i = 0; i < len; ++i)
        if (model[i]) VF_ASSERT(((vf_res*)model[i])->released == 1, "each owned element is released once");
    VF_ASSERT(vf_live == 0, "no block leaks");
    VF_REACH("end");
}
