/* Doubly linked list as a sequence: from every list of length <= N, every
 * STEPS-long program of public operations with every argument and every
 * allocation-failure schedule behaves like the same operation on an array. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include "../place.h"
#include <rcpr/list.h>

RCPR_IMPORT_list;

#ifdef LONG
#define N LONG
#endif
#ifndef N
#define N 3
#endif
#ifndef STEPS
#define STEPS 1
#endif
#define CAP (N + STEPS)

static vf_res res[CAP + 1];
static unsigned nres;
static resource* model[CAP + 1];
static unsigned len;

static resource* fresh(void)
{
    vf_res* r = &res[nres++];
    vf_res_init(r);
    return &r->hdr;
}

static void model_insert(unsigned at, resource* r)
{
    for (unsigned i = len; i > at; --i) model[i] = model[i - 1];
    model[at] = r;
    ++len;
}

static void check(list* l)
{
    list_node* node = NULL; list_node* prev = NULL; list_node* tmp = NULL;
    VF_ASSERT(list_count(l) == len, "count is the number of elements");
    VF_ASSERT(list_head(&node, l) == STATUS_SUCCESS, "head succeeds");
    for (unsigned i = 0; i < CAP; ++i)
    {
        if (i >= len) break;
        VF_ASSERT(node != NULL, "the list has an element at every index below its count");
        resource* c = NULL;
        VF_ASSERT(list_node_child(&c, node) == STATUS_SUCCESS && c == model[i], "forward traversal yields the sequence");
        tmp = NULL;
        VF_ASSERT(list_node_prev(&tmp, node) == STATUS_SUCCESS && tmp == prev, "prev is the inverse of next");
        prev = node;
        tmp = NULL;
        VF_ASSERT(list_node_next(&tmp, node) == STATUS_SUCCESS, "next succeeds");
        node = tmp;
    }
    VF_ASSERT(node == NULL, "forward traversal ends after the last element");
    VF_ASSERT(list_tail(&node, l) == STATUS_SUCCESS && node == prev, "tail is the last element");
}

static list_node* nth(list* l, unsigned k)
{
    list_node* node = NULL;
    VF_ASSERT(list_head(&node, l) == STATUS_SUCCESS, "head succeeds");
    for (unsigned i = 0; i < CAP; ++i)
    {
        if (i >= k) break;
        list_node* t = NULL;
        VF_ASSERT(list_node_next(&t, node) == STATUS_SUCCESS, "next succeeds");
        node = t;
    }
    return node;
}

static void step(list* l)
{
    unsigned op = vf_below(7);
    status s;
    resource* r = NULL;
    unsigned failed = vf_failures;
    vf_may_fail = true;
    switch (op)
    {
    case 0:
        r = fresh();
        s = list_insert_head(l, r);
        if (s == STATUS_SUCCESS) { model_insert(0, r); VF_REACH("insert_head"); }
        break;
    case 1:
        r = fresh();
        s = list_append_tail(l, r);
        if (s == STATUS_SUCCESS) { model_insert(len, r); VF_REACH("append_tail"); }
        break;
    case 2:
    {
        unsigned k = place(len, CAP);
        r = fresh();
        s = list_append(nth(l, k), r);
        if (s == STATUS_SUCCESS) { model_insert(k + 1, r); VF_REACH("append"); }
        break;
    }
    case 3:
    {
        unsigned k = place(len, CAP);
        r = fresh();
        s = list_insert(nth(l, k), r);
        if (s == STATUS_SUCCESS) { model_insert(k, r); VF_REACH("insert"); }
        break;
    }
    case 4:
    {
        unsigned k = place(len, CAP);
        resource* want = model[k];
        r = vf_bool() ? fresh() : NULL;
        resource* in = r;
        s = list_node_child_swap(nth(l, k), &r);
        VF_ASSERT(s == STATUS_SUCCESS, "child swap succeeds");
        VF_ASSERT(r == want, "child swap hands the old child to the caller");
        model[k] = in;
        VF_REACH("child_swap");
        return;
    }
    case 5:
    {
        resource* want = len ? model[0] : NULL;
        s = list_pop(l, &r);
        VF_ASSERT(s == STATUS_SUCCESS, "pop succeeds");
        VF_ASSERT(r == want, "pop yields the head element, or NULL from an empty list");
        if (len)
        {
            for (unsigned i = 0; i + 1 < CAP + 1; ++i) if (i + 1 < len) model[i] = model[i + 1];
            --len;
            VF_REACH("pop");
        }
        return;
    }
    default:
        s = list_clear(l);
        VF_ASSERT(s == STATUS_SUCCESS, "clear succeeds");
        for (unsigned i = 0; i < CAP; ++i)
            if (i < len && model[i]) VF_ASSERT(((vf_res*)model[i])->released == 1, "clear releases every element");
        len = 0;
        VF_REACH("clear");
        return;
    }
    VF_ASSERT((s == STATUS_SUCCESS) == (vf_failures == failed), "an insertion fails exactly when its allocation fails");
    if (s != STATUS_SUCCESS)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY, "allocation failure is reported as such");
        VF_REACH("insertion failed");
    }
}

void vf_main(void)
{
    allocator* a = vf_allocator_get();
    list* l = NULL;
    VF_ASSUME(list_create(&l, a) == STATUS_SUCCESS);
#ifdef LONG
    unsigned n = LONG;
#else
    unsigned n = vf_below(N + 1);
#endif
    for (unsigned i = 0; i < N; ++i)
    {
        if (i >= n) break;
        resource* r = fresh();
        VF_ASSERT(list_append_tail(l, r) == STATUS_SUCCESS, "append succeeds when memory is available");
        model_insert(len, r);
    }
    for (unsigned k = 0; k < STEPS; ++k) { step(l); check(l); }

    /* ownership: exactly what the list still holds is released with it. */
    unsigned before = vf_releases, held = 0;
    for (unsigned i = 0; i < CAP; ++i) if (i < len && model[i]) ++held;
    VF_ASSERT(resource_release(list_resource_handle(l)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == before + held, "releasing the list releases what it owns and nothing else");
    for (unsigned i = 0; i < CAP; ++i)
        if (i < len && model[i]) VF_ASSERT(((vf_res*)model[i])->released == 1, "each owned element is released once");
    VF_ASSERT(vf_live == 0, "no block leaks");
    VF_REACH("end");
}
