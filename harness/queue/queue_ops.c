/* FIFO queue: every STEPS-long program of append, insert-at-front, pop and
 * count from every queue of length <= N, with allocation failures. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include <rcpr/queue.h>

RCPR_IMPORT_queue;

#ifdef LONG
#define N LONG
#endif
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 4
#endif
#define CAP (N + STEPS)

static vf_res res[CAP + 1];
static unsigned nres;
static resource* ring[CAP + STEPS + 1];
static resource** model = ring + STEPS;
static unsigned len;

static resource* fresh(void)
{
    vf_res* r = &res[nres++];
    vf_res_init(r);
    return &r->hdr;
}
static void pop(queue* q)
{
    resource* r = NULL;
    VF_ASSERT(queue_pop(q, &r) == STATUS_SUCCESS, "pop succeeds");
    if (len == 0)
    {
        VF_ASSERT(r == NULL, "an empty queue yields nothing");
        VF_REACH("pop empty");
        return;
    }
    VF_ASSERT(r == model[0], "elements are popped in order, each once");
    VF_ASSERT(((vf_res*)r)->released == 0, "a popped element belongs to the caller");
    ++model;
    --len;
    VF_REACH("pop");
}
void vf_main(void)
{
    queue* q = NULL;
    VF_ASSUME(queue_create(&q, vf_allocator_get()) == STATUS_SUCCESS);
#ifdef LONG
    unsigned n = LONG;
#else
    unsigned n = vf_below(N + 1);
#endif
    for (unsigned i = 0; i < n; ++i)
    {
        resource* r = fresh();
        VF_ASSERT(queue_append(q, r) == STATUS_SUCCESS, "append succeeds when memory is available");
        model[len++] = r;
    }
    vf_may_fail = true;
    for (unsigned k = 0; k < STEPS; ++k)
    {
        unsigned op = vf_below(3);
        unsigned failed = vf_failures;
        if (op == 2) pop(q);
        else
        {
            resource* r = fresh();
            status s = op == 0 ? queue_append(q, r) : queue_insert(q, r);
            VF_ASSERT((s == STATUS_SUCCESS) == (vf_failures == failed), "an insertion fails exactly when its allocation fails");
            if (s == STATUS_SUCCESS)
            {
                if (op == 0) model[len] = r;
                else *--model = r;
                ++len;
                if (op == 0) VF_REACH("append"); else VF_REACH("insert");
            }
            else
            {
                VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY, "allocation failure is reported as such");
                VF_ASSERT(((vf_res*)r)->released == 0, "a rejected resource stays with the caller");
                VF_REACH("insertion failed");
            }
        }
        VF_ASSERT(queue_count(q) == len, "count is the number of elements not yet popped");
    }
    vf_may_fail = false;
    bool drain = vf_bool();
    if (drain)
    {
        for (unsigned i = 0; i < CAP + 1; ++i) { bool e = len == 0; pop(q); if (e) break; }
        VF_ASSERT(queue_count(q) == 0, "a drained queue is empty");
        VF_REACH("drained");
    }
    unsigned before = vf_releases;
    VF_ASSERT(resource_release(queue_resource_handle(q)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(vf_releases == before + len, "releasing the queue releases what it still holds and nothing else");
    for (unsigned i = 0; i < len; ++i) VF_ASSERT(((vf_res*)model[i])->released == 1, "each held element is released once");
    VF_ASSERT(vf_live == 0, "no block leaks");
    VF_REACH("end");
}
