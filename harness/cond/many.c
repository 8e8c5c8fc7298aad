/* C01: many waiters and many conditions.  COUNT fibers wait, twice each, on
 * two conditions (MODE 0) or on one each (MODE 1). */
#ifndef COUNT
#define COUNT 300
#endif
#define MAXMAP (COUNT + 4)
#include "../fiber/env.h"
#include "../psock/step.h"
#include <rcpr/condition.h>
RCPR_IMPORT_condition;
static fiber_scheduler_discipline* condisc;
static fiber* fibs[COUNT]; static int ctx[COUNT]; static conditional h[COUNT];
static int order[2 * COUNT], n_order; static status result[2 * COUNT]; static unsigned woken[COUNT];
static conditional mine(int k) { return MODE ? h[k] : h[k % 2]; }
static status body(void* c)
{
    int k = (int)((int*)c - ctx);
    for (int r = 0; r < 2; ++r)
    {
        status st = conditional_wait(mine(k), condisc);
        VF_ASSERT(n_order < 2 * COUNT, "no more are woken than wait");
        ++woken[k];
        result[n_order] = st; order[n_order++] = k;
        if (st != STATUS_SUCCESS) break;
    }
    return 0;
}
static void let_run(void) { VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run"); }
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    VF_ASSERT(condition_discipline_get_or_create(&condisc, vf_allocator_get(), sched) == STATUS_SUCCESS, "the discipline is made");
    int conds = MODE ? COUNT : 2;
    for (int i = 0; i < conds; ++i)
    {
        VF_ASSERT(conditional_create(&h[i], condisc) == STATUS_SUCCESS, "a condition is made");
        for (int j = 0; j < i; ++j) VF_ASSERT(h[j] != h[i], "open conditions have distinct handles");
    }
    for (int k = 0; k < COUNT; ++k)
        VF_ASSERT(fiber_create(&fibs[k], vf_allocator_get(), sched, 4096, &ctx[k], &body) == STATUS_SUCCESS
            && fiber_scheduler_add(sched, fibs[k]) == STATUS_SUCCESS, "a fiber is added");
    let_run();
    if (MODE == 0)
    {
        /* some one by one, the rest at once or by closing, of either. */
        int c = (int)step_len(2), half = COUNT / 2;
        static const int some[] = { 0, 1, COUNT / 3, COUNT / 2 };
        int ones = some[step_len(4)];
        bool close = vf_bool();
        if (close) VF_ASSUME(1);
        for (int i = 0; i < ones; ++i)
        {
            VF_ASSERT(conditional_notify_one(h[c], condisc) == STATUS_SUCCESS, "notifying succeeds");
            VF_ASSERT(n_order == i + 1 && order[i] == 2 * i + c && result[i] == STATUS_SUCCESS, "the longest waiting is woken, and no other");
        }
        VF_ASSERT((close ? conditional_close(h[c], condisc) : conditional_notify_all(h[c], condisc)) == STATUS_SUCCESS, "notifying all and closing succeed");
        let_run();
        VF_ASSERT(n_order == ones + half, "all that waited are woken, once");
        for (int i = 0; i < half; ++i)
        {
            VF_ASSERT(order[ones + i] == 2 * ((ones + i) % half) + c, "in the order they waited");
            VF_ASSERT((result[ones + i] == STATUS_SUCCESS) == !close, "with success when notified, a failure when it was closed");
        }
        for (int k = 0; k < COUNT; ++k) if (k % 2 != c) VF_ASSERT(woken[k] == 0, "those of the other condition wait on");
        int at = n_order;
        VF_ASSERT(conditional_notify_all(h[1 - c], condisc) == STATUS_SUCCESS, "notifying all succeeds");
        let_run();
        VF_ASSERT(n_order == at + half, "all that waited are woken");
        for (int i = 0; i < half; ++i) VF_ASSERT(order[at + i] == 2 * i + 1 - c && result[at + i] == STATUS_SUCCESS, "in the order they waited");
        VF_REACH("notified");
    }
    else
    {
        static const int at[] = { 0, 1, COUNT / 2, 255, 256, COUNT - 1 };
        int w = at[step_len(6)], x = at[step_len(6)];
        VF_ASSERT(conditional_notify_one(h[w], condisc) == STATUS_SUCCESS, "notifying succeeds");
        VF_ASSERT(n_order == 1 && order[0] == w && result[0] == STATUS_SUCCESS, "the waiter of the condition is woken, and no other");
        VF_ASSERT(conditional_close(h[x], condisc) == STATUS_SUCCESS, "closing succeeds");
        let_run();
        VF_ASSERT(n_order == 2 && order[1] == x && result[1] != STATUS_SUCCESS, "the waiter of the closed condition fails, and no other");
        VF_ASSERT(conditional_notify_all(h[x], condisc) != STATUS_SUCCESS, "a closed condition is not notified");
        for (int k = 0; k < COUNT; ++k) if (k != x) VF_ASSERT(conditional_notify_all(h[k], condisc) == STATUS_SUCCESS, "every other condition is still there");
        let_run();
        for (int k = 0; k < COUNT; ++k)
        {
            VF_ASSERT(woken[k] == 1u + (k == w), "every waiter is woken once for each notification");
        }
        VF_REACH("one each");
    }
    sched_drop();
    VF_REACH("end");
}
