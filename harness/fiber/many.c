/* F01, F03: many fibers.  COUNT fibers of four kinds: finishing at once,
 * letting the others run, waiting to be woken, and waiting until asked to
 * stop.  MODE 0: no management fiber, 1: one that releases finished fibers. */
#ifndef COUNT
#define COUNT 120
#endif
#define MAXMAP (COUNT + 4)
#include "env.h"
#include "../psock/step.h"
static fiber *fibs[COUNT], *mgmt; static int ctx[COUNT], wp[COUNT]; static int shift; static bool terminate_, backwards;
static int trace[8 * COUNT], n_trace; static unsigned asked[COUNT], runs[COUNT]; static bool done[COUNT], released[COUNT];
static int heard_add, heard_stop;
static fiber_scheduler_discipline* disc;
static rcpr_uuid disc_id = { .data = { 9, 8, 7, 6, 5, 4, 3, 2, 1, 2, 3, 4, 5, 6, 7, 8 } };
static status parked(void* c, fiber* f, int ev, void* p) { (void)c; (void)f; (void)ev; (void)p; return STATUS_SUCCESS; }
static void let_run(void) { VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run"); }
static int kind(int k) { return (k + shift) % 4; }
static bool is_mgmt(const rcpr_uuid* id) { return memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, sizeof *id) == 0; }
static void run_(int k) { VF_ASSERT(n_trace < 8 * COUNT, "no fiber runs on and on"); trace[n_trace++] = k; ++runs[k]; }
static status body(void* c)
{
    int k = (int)((int*)c - ctx);
    run_(k);
    if (kind(k) == 1) for (int r = 0; r < 2; ++r) { let_run(); run_(k); }
    if (kind(k) >= 2) for (;;)
    {
        const rcpr_uuid* id; int ev; void* p;
        VF_ASSERT(fiber_discipline_yield(disc, 0, c, &id, &ev, &p) == STATUS_SUCCESS, "a wait ends");
        run_(k);
        if (is_mgmt(id))
        {
            VF_ASSERT(ev == (terminate_ ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST
                : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST), "a request is the one sent");
            ++asked[k];
            break;
        }
        VF_ASSERT(kind(k) == 2 && id == &disc_id && ev == k && p == &wp[k], "a fiber resumes with what it was woken with");
    }
    done[k] = true;
    return 0;
}
static status manager(void* c)
{
    (void)c;
    for (;;)
    {
        const rcpr_uuid* id; int ev; void* p;
        VF_ASSERT(disciplined_fiber_scheduler_receive_management_event(sched, &id, &ev, &p) == STATUS_SUCCESS && is_mgmt(id), "a management event");
        if (ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP)
        {
            int k = 0;
            while (k < COUNT && fibs[k] != p) ++k;
            VF_ASSERT(k < COUNT && done[k] && !released[k], "the management fiber hears of a finished fiber, once");
            released[k] = true;
            VF_ASSERT(disciplined_fiber_scheduler_remove_fiber(sched, fibs[k]) == STATUS_SUCCESS
                && resource_release(fiber_resource_handle(fibs[k])) == STATUS_SUCCESS, "a finished fiber is handed over and released");
            ++heard_stop;
        }
        else { VF_ASSERT(ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD && p == fibs[heard_add], "and of each one added, in order"); ++heard_add; }
    }
}
/* exactly the fibers of the given kinds ran since, in the order added or the
 * reverse of it. */
static void ran(int from, int lo, int hi, bool back, const char* what)
{
    (void)what;
    int at = from;
    for (int i = 0; i < COUNT; ++i)
    {
        int k = back ? COUNT - 1 - i : i;
        if (kind(k) < lo || kind(k) > hi) continue;
        VF_ASSERT(at < n_trace && trace[at] == k, "fibers run in the order they became runnable");
        ++at;
    }
    VF_ASSERT(at == n_trace, "and no others run");
}
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    shift = (int)step_len(4); terminate_ = vf_bool(); backwards = vf_bool();
    if (terminate_) VF_ASSUME(1);
    if (backwards) VF_ASSUME(1);
    fiber_scheduler_discipline_callback_fn cbs[1] = { &parked };
    VF_ASSERT(fiber_scheduler_discipline_create(&disc, &disc_id, vf_allocator_get(), NULL, 1, cbs) == STATUS_SUCCESS
        && fiber_scheduler_discipline_add(sched, disc) == STATUS_SUCCESS, "a discipline is added");
    if (MODE)
    {
        VF_ASSERT(fiber_create(&mgmt, vf_allocator_get(), sched, 4096, NULL, &manager) == STATUS_SUCCESS
            && fiber_scheduler_add(sched, mgmt) == STATUS_SUCCESS, "the management fiber is added");
        let_run();
    }
    for (int k = 0; k < COUNT; ++k)
    {
        VF_ASSERT(fiber_create(&fibs[k], vf_allocator_get(), sched, 4096, &ctx[k], &body) == STATUS_SUCCESS, "a fiber is made");
        VF_ASSERT(fiber_scheduler_add(sched, fibs[k]) == STATUS_SUCCESS, "a fiber is added");
        if (MODE) VF_ASSERT(heard_add == k + 1 || n_trace > 0, "the management fiber hears of an added fiber");
    }
    if (MODE) { for (int r = 0; r < 4; ++r) let_run(); VF_ASSERT(heard_add == COUNT, "the management fiber hears of every added fiber"); }
    else
    {
        VF_ASSERT(n_trace == 0, "adding runs no fiber");
        let_run();
        ran(0, 0, 3, false, "all");
        for (int r = 0; r < 2; ++r) { int at = n_trace; let_run(); ran(at, 1, 1, false, "yielding"); }
    }
    for (int k = 0; k < COUNT; ++k) VF_ASSERT(runs[k] == (kind(k) == 1 ? 3u : 1u) && done[k] == (kind(k) < 2), "every added fiber is run");
    int at = n_trace;
    for (int i = 0; i < COUNT; ++i)
    {
        int k = backwards ? COUNT - 1 - i : i;
        if (kind(k) == 2) VF_ASSERT(disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, fibs[k], &disc_id, k, &wp[k]) == STATUS_SUCCESS, "a fiber is woken");
    }
    let_run();
    ran(at, 2, 2, backwards, "woken");
    VF_ASSERT((terminate_ ? disciplined_fiber_scheduler_send_terminate_request_to_all(sched)
        : disciplined_fiber_scheduler_send_quiesce_request_to_all(sched)) == STATUS_SUCCESS, "a request is sent to all");
    let_run(); let_run();
    for (int k = 0; k < COUNT; ++k) VF_ASSERT(done[k] && asked[k] == (kind(k) >= 2 ? 1u : 0u), "every waiting fiber is asked, once");
    if (MODE) VF_ASSERT(heard_stop > 0 && maps_live < COUNT, "finished fibers are released with their stacks");
    sched_drop();
    VF_REACH("end");
}
