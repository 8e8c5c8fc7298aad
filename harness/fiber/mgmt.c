/* F03: quiesce and terminate requests.  N fibers each wait, have finished or
 * have not started when a request is sent, to one or to all, by the main
 * fiber or by another.  READY: fibers may also be runnable then. */
#include "env.h"
#ifndef N
#define N 3
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifndef REQS
#define REQS 1
#endif
#ifndef READY
#define READY 0
#endif
enum { WAIT, FINISH, LATE, RUNNABLE };
static unsigned kind[N], started[N], resumed[N], expect[N], woken_plain[N];
static fiber *fibs[N], *mgmt, *req; static int ctx[N], wparam[N];
static bool waiting[N], done[N]; static bool to_all, terminate_, by_fiber; static int target;
static bool last_terminate; static bool told_mgmt; static unsigned req_runs;
static fiber_scheduler_discipline* disc;
static rcpr_uuid disc_id = { .data = { 9, 8, 7, 6, 5, 4, 3, 2, 1, 2, 3, 4, 5, 6, 7, 8 } };
static status parked(void* c, fiber* f, int ev, void* p) { (void)c; (void)f; (void)ev; (void)p; return STATUS_SUCCESS; }
static bool is_mgmt(const rcpr_uuid* id) { return memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, sizeof *id) == 0; }
static status body(void* c)
{
    int i = (int)((int*)c - ctx);
    VF_ASSERT(started[i] == 0, "a fiber starts once");
    ++started[i];
    vf_may_fail = false;
    if (kind[i] == FINISH) { done[i] = true; return 0; }
    if (kind[i] == RUNNABLE)
    {
        bool f = fiber_scheduler_run(sched) == STATUS_SUCCESS;
        VF_ASSERT(f, "a fiber lets the others run");
    }
    for (;;)
    {
        const rcpr_uuid* id; int ev; void* p;
        waiting[i] = true;
        status st = fiber_discipline_yield(disc, 0, c, &id, &ev, &p);
        vf_may_fail = false;
        VF_ASSERT(st == STATUS_SUCCESS, "a wait ends");
        VF_ASSERT(waiting[i], "harness: it waited");
        waiting[i] = false;
        if (is_mgmt(id))
        {
            VF_ASSERT(resumed[i] < expect[i], "only a requested fiber is resumed, and once for each request");
            VF_ASSERT(ev == (last_terminate ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST
                                             : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST) && p == NULL, "with the request");
            ++resumed[i];
            if (last_terminate) { VF_REACH("terminated"); done[i] = true; return 0; }
            VF_REACH("quiesced");
        }
        else { VF_ASSERT(id == &disc_id && ev == 5 && p == &wparam[i], "a wait ends with what it was woken with"); ++woken_plain[i]; }
    }
}
static status manager(void* c)
{
    (void)c;
    for (;;)
    {
        const rcpr_uuid* id; int ev; void* p;
        status st = disciplined_fiber_scheduler_receive_management_event(sched, &id, &ev, &p);
        VF_ASSERT(st == STATUS_SUCCESS && is_mgmt(id) && (ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD
            || ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP), "the management fiber is told of additions and ends, not of requests");
        told_mgmt = true;
    }
}
static void request(void)
{
    bool old[N];
    last_terminate = terminate_;
    for (int i = 0; i < N; ++i)
    {
        old[i] = waiting[i];
        if (to_all ? waiting[i] : (i == target && waiting[i])) ++expect[i];
    }
    vf_may_fail = FAILS;
    int f = vf_failures;
    status st = to_all ? (terminate_ ? disciplined_fiber_scheduler_send_terminate_request_to_all(sched) : disciplined_fiber_scheduler_send_quiesce_request_to_all(sched))
        : (terminate_ ? disciplined_fiber_scheduler_send_terminate_request_to_fiber(sched, fibs[target]) : disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, fibs[target]));
    vf_may_fail = false;
    if (st != STATUS_SUCCESS)
    {
        VF_ASSERT(vf_failures > f || (!to_all && !old[target]), "a failure has a cause");
        if (vf_failures > f)
        {
            VF_REACH("request failed");
            /* some may have been reached before the failure. */
            if (!to_all && !resumed[target]) expect[target] = 0;
            if (to_all) for (int i = 0; i < N; ++i) if (!resumed[i]) { expect[i] = old[i] ? expect[i] : 0; woken_plain[i] = 1; }
        }
        else { VF_ASSERT(st == ERROR_FIBER_INVALID_STATE, "a fiber not running cannot be asked"); VF_REACH("not running"); }
    }
    else VF_ASSERT(to_all || old[target] || kind[target] == RUNNABLE, "success is a request sent");
}
static status requester(void* c)
{
    (void)c;
    ++req_runs;
    request();
    VF_REACH("sent by a fiber");
    return 0;
}
void vf_main(void)
{
    vf_may_fail = false; vf_max_failures = 1;
    sched_make();
    fiber_scheduler_discipline_callback_fn cbs[1] = { &parked };
    VF_ASSERT(fiber_scheduler_discipline_create(&disc, &disc_id, vf_allocator_get(), NULL, 1, cbs) == STATUS_SUCCESS
        && fiber_scheduler_discipline_add(sched, disc) == STATUS_SUCCESS, "a discipline is added");
    bool managed = vf_bool();
    if (managed)
    {
        VF_ASSUME(1);
        VF_ASSERT(fiber_create(&mgmt, vf_allocator_get(), sched, 4096, NULL, &manager) == STATUS_SUCCESS
            && fiber_scheduler_add(sched, mgmt) == STATUS_SUCCESS && fiber_scheduler_run(sched) == STATUS_SUCCESS, "the management fiber waits");
    }
    for (int i = 0; i < N; ++i)
    {
        kind[i] = vf_below(3 + READY);
        for (unsigned k = 0; k < 3; ++k) if (kind[i] == k) VF_ASSUME(1);
        VF_ASSERT(fiber_create(&fibs[i], vf_allocator_get(), sched, 4096, &ctx[i], &body) == STATUS_SUCCESS, "a fiber is made");
        if (kind[i] != LATE) VF_ASSERT(fiber_scheduler_add(sched, fibs[i]) == STATUS_SUCCESS, "a fiber is added");
    }
    VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run");
    for (int i = 0; i < N; ++i)
    {
        VF_ASSERT(waiting[i] == (kind[i] == WAIT) && done[i] == (kind[i] == FINISH), "harness: as intended");
        if (kind[i] == LATE) VF_ASSERT(fiber_scheduler_add(sched, fibs[i]) == STATUS_SUCCESS, "a fiber is added");
    }
    for (int r = 0; r < REQS; ++r)
    {
        to_all = vf_bool(); terminate_ = vf_bool(); by_fiber = vf_bool(); target = (int)vf_below(N);
        if (to_all) VF_ASSUME(1);
        for (int i = 0; i < N; ++i) if (target == i) VF_ASSUME(1);
        if (r == 0 && by_fiber)
        {
            VF_ASSUME(1);
            VF_ASSERT(fiber_create(&req, vf_allocator_get(), sched, 4096, NULL, &requester) == STATUS_SUCCESS, "a fiber is made");
            /* it runs before the others added last: put it first by asking at once. */
            VF_ASSERT(fiber_scheduler_add(sched, req) == STATUS_SUCCESS, "a fiber is added");
        }
        else request();
        for (int k = 0; k < 3; ++k) { VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run"); vf_may_fail = false; }
        for (int i = 0; i < N; ++i)
        {
            VF_ASSERT(resumed[i] == expect[i] || woken_plain[i], "every asked fiber is resumed");
            VF_ASSERT(started[i] == 1, "every fiber has started once");
        }
    }
    VF_ASSERT(req_runs <= 1, "the requester runs once");
    sched_drop();
    VF_REACH("end");
}
