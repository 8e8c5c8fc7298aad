/* F01: the order in which a disciplined scheduler runs its fibers, and what
 * becomes of them.  Every fiber decides symbolically, STEPS times, to let the
 * others run, to wait, to add another fiber or to finish; the expected run
 * queue is kept beside it.
 * MGMT: a management fiber releases finished fibers; with LAZY it may let the
 * others run before it listens again.  IDLE: an idle fiber
 * wakes waiting ones when there is nothing else to run. */
#include "env.h"
#ifndef N
#define N 3
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef MSTEPS
#define MSTEPS 3
#endif
#ifndef MGMT
#define MGMT 0
#endif
#ifndef IDLE
#define IDLE 0
#endif
#ifndef LAZY
#define LAZY 0
#endif
#ifndef FAILS
#define FAILS 0
#endif
enum { M = N, IDLER = N + 1, MAIN = N + 2, QMAX = 2 * N + 4 };
static int mq[QMAX], mq_n;
static fiber* fibs[N + 3];
static int ctxs[N + 3];
static unsigned started[N], next_, released_;
static bool added[N], finished[N], waiting[N + 3], gone[N];
static bool mgmt_waiting; static int mgmt_event = -1; static fiber* mgmt_about;
static fiber_scheduler_discipline* disc;
static rcpr_uuid disc_id = { .data = { 9, 8, 7, 6, 5, 4, 3, 2, 1, 2, 3, 4, 5, 6, 7, 8 } };
static int wake_param[N + 3];
static int current = MAIN;
static void tail(int id) { VF_ASSERT(mq_n < QMAX, "harness: queue"); mq[mq_n++] = id; }
static void front(int id) { VF_ASSERT(mq_n < QMAX, "harness: queue"); for (int i = mq_n; i > 0; --i) mq[i] = mq[i - 1]; mq[0] = id; ++mq_n; }
/* a fiber runs: it must be the one whose turn it is. */
static void turn(int id)
{
    vf_may_fail = false;
    if (mq_n == 0) { VF_ASSERT(IDLE && id == IDLER, "the idle fiber runs when no other can"); current = id; return; }
    VF_ASSERT(mq[0] == id, "fibers run in the order they became runnable");
    for (int i = 1; i < mq_n; ++i) mq[i - 1] = mq[i];
    --mq_n;
    VF_ASSERT(id >= N || !finished[id], "a finished fiber does not run again");
    current = id;
}
static status parked(void* c, fiber* f, int ev, void* p)
{
    VF_ASSERT(c == &next_ && f == fibs[current] && p == &ctxs[current], "the callback is told who waits");
    (void)ev;
    return STATUS_SUCCESS;
}
static void wait_(int id)
{
    const rcpr_uuid* rid; int ev; void* p;
    waiting[id] = true;
    status st = fiber_discipline_yield(disc, 0, &ctxs[id], &rid, &ev, &p);
    turn(id);
    VF_ASSERT(st == STATUS_SUCCESS, "a wait ends well");
    VF_ASSERT(rid == &disc_id && ev == 100 + id && p == &wake_param[id], "a waiting fiber resumes with what it was woken with");
    VF_REACH("woken");
}
static void wake(int id)
{
    waiting[id] = false;
    VF_ASSERT(disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, fibs[id], &disc_id, 100 + id, &wake_param[id]) == STATUS_SUCCESS, "a fiber is woken");
    tail(id);
}
static void others_run(int id)
{
    vf_may_fail = FAILS;
    int f = vf_failures;
    tail(id);
    status st = fiber_scheduler_run(sched);
    if (st != STATUS_SUCCESS) { VF_ASSERT(vf_failures > f && mq[mq_n - 1] == id, "a failure has a cause"); --mq_n; vf_may_fail = false; VF_REACH("run failed"); return; }
    turn(id);
}
static status body(void* c);
static void add(int id)
{
    if (next_ >= N) return;
    int k = (int)next_;
    vf_may_fail = FAILS;
    int f = vf_failures;
    status st = fiber_create(&fibs[k], vf_allocator_get(), sched, 4096 + 4096 * (size_t)k, &ctxs[k], &body);
    vf_may_fail = false;
    if (st != STATUS_SUCCESS) { VF_ASSERT(vf_failures > f && maps_live == (int)next_ - (int)released_ + MGMT + IDLE, "a failure has a cause"); VF_REACH("create failed"); return; }
    bool mw = mgmt_waiting;
    /* the adder goes on, after the management fiber heard of it. */
    front(id);
    if (mw) { front(M); mgmt_event = FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD; mgmt_about = fibs[k]; mgmt_waiting = false; }
    tail(k);
    ++next_;
    added[k] = true;
    f = vf_failures;
    vf_may_fail = FAILS;
    st = fiber_scheduler_add(sched, fibs[k]);
    if (st != STATUS_SUCCESS)
    {
        vf_may_fail = false;
        VF_ASSERT(vf_failures > f, "a failure has a cause");
        --next_; added[k] = false;
        if (mw) { VF_ASSERT(!mgmt_waiting, "the management fiber hears of no fiber not added"); mgmt_waiting = true; for (int i = 1; i < mq_n; ++i) mq[i - 1] = mq[i]; --mq_n; }
        for (int i = 1; i < mq_n; ++i) mq[i - 1] = mq[i];
        mq_n -= 2;
        VF_ASSERT(resource_release(fiber_resource_handle(fibs[k])) == STATUS_SUCCESS, "a fiber not added stays with its maker");
        VF_REACH("add failed");
        return;
    }
    turn(id);
}
static status body(void* c)
{
    int id = (int)((int*)c - ctxs);
    VF_ASSERT(id >= 0 && id < N && c == &ctxs[id] && added[id], "a fiber gets its own context");
    turn(id);
    VF_ASSERT(started[id] == 0, "a fiber starts once");
    ++started[id];
    for (int s = 0; s < STEPS; ++s)
    {
        unsigned k = vf_below(4);
        if (k == 0) { VF_ASSUME(1); break; }
        if (k == 1) { VF_ASSUME(1); others_run(id); VF_REACH("yielded"); }
        else if (k == 2) { VF_ASSUME(1); add(id); }
        else { VF_ASSUME(1); wait_(id); }
    }
    finished[id] = true;
    if (mgmt_waiting) { front(M); mgmt_event = FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP; mgmt_about = fibs[id]; mgmt_waiting = false; }
    return 0x55 + id;
}
static status manager(void* c)
{
    VF_ASSERT(c == &ctxs[M], "a fiber gets its own context");
    turn(M);
    for (;;)
    {
        const rcpr_uuid* rid; int ev; void* p;
        mgmt_waiting = true;
        status st = disciplined_fiber_scheduler_receive_management_event(sched, &rid, &ev, &p);
        turn(M);
        VF_ASSERT(st == STATUS_SUCCESS && memcmp(rid, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, sizeof *rid) == 0, "a management event");
        VF_ASSERT(ev == mgmt_event && p == mgmt_about, "the management fiber is told what happened to which fiber");
        VF_ASSERT(!mgmt_waiting, "and only then");
        if (ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP)
        {
            int live = maps_live;
            VF_ASSERT(disciplined_fiber_scheduler_remove_fiber(sched, (fiber*)p) == STATUS_SUCCESS, "a finished fiber is handed over");
            VF_ASSERT(resource_release(fiber_resource_handle((fiber*)p)) == STATUS_SUCCESS, "and released");
            VF_ASSERT(maps_live == live - 1, "with its stack");
            ++released_;
            VF_REACH("finished fiber released");
        }
        else VF_REACH("management told of an addition");
        if (LAZY && vf_bool()) { VF_ASSUME(1); others_run(M); VF_REACH("not listening"); }
    }
}
static status idler(void* c)
{
    VF_ASSERT(c == &ctxs[IDLER], "a fiber gets its own context");
    turn(IDLER);
    for (;;)
    {
        bool any = false;
        for (int i = 0; i < N; ++i) if (waiting[i] && vf_bool()) { VF_ASSUME(1); wake(i); any = true; }
        if (waiting[MAIN] && (!any || vf_bool())) { VF_ASSUME(1); wake(MAIN); }
        VF_REACH("idle");
        status st = disciplined_fiber_scheduler_idle_fiber_yield(sched);
        turn(IDLER);
        VF_ASSERT(st == STATUS_SUCCESS, "the idle fiber is resumed");
    }
}
void vf_main(void)
{
#ifdef CREATE
    vf_may_fail = true;
    status st = fiber_scheduler_create_with_disciplines(&sched, vf_allocator_get());
    if (st != STATUS_SUCCESS)
    {
        VF_ASSERT(vf_failures > 0, "a failure has a cause");
        VF_ASSERT(vf_live == 0, "a failed creation keeps nothing");
        VF_REACH("create failed");
        return;
    }
    vf_may_fail = false;
    VF_ASSERT(vf_failures == 0, "a failure is reported");
    sched_drop();
    VF_REACH("end");
    return;
#endif
    vf_may_fail = false;
    vf_max_failures = 1;
    sched_make();
    fibs[MAIN] = main_fib;
    fiber_scheduler_discipline_callback_fn cbs[1] = { &parked };
    VF_ASSERT(fiber_scheduler_discipline_create(&disc, &disc_id, vf_allocator_get(), &next_, 1, cbs) == STATUS_SUCCESS, "a discipline is made");
    VF_ASSERT(fiber_scheduler_discipline_add(sched, disc) == STATUS_SUCCESS, "a discipline is added");
    if (MGMT)
    {
        VF_ASSERT(fiber_create(&fibs[M], vf_allocator_get(), sched, 8192, &ctxs[M], &manager) == STATUS_SUCCESS, "the management fiber is made");
        tail(M);
        VF_ASSERT(fiber_scheduler_add(sched, fibs[M]) == STATUS_SUCCESS, "the management fiber is added");
        others_run(MAIN);
    }
    if (IDLE)
    {
        VF_ASSERT(fiber_create(&fibs[IDLER], vf_allocator_get(), sched, 8192, &ctxs[IDLER], &idler) == STATUS_SUCCESS, "the idle fiber is made");
        VF_ASSERT(disciplined_fiber_scheduler_set_idle_fiber(sched, fibs[IDLER]) == STATUS_SUCCESS, "the idle fiber is set");
    }
    add(MAIN);
    for (int s = 0; s < MSTEPS; ++s)
    {
        unsigned k = vf_below(3);
        if (k == 0) { VF_ASSUME(1); add(MAIN); }
        else if (k == 1) { VF_ASSUME(1); others_run(MAIN); }
        else if (IDLE) { VF_ASSUME(1); wait_(MAIN); }
        else { VF_ASSUME(1); for (int i = 0; i < N; ++i) if (waiting[i]) wake(i); }
    }
    for (int s = 0; s < N * STEPS + 2 && mq_n > 0; ++s) others_run(MAIN);
    VF_ASSERT(mq_n == 0 || FAILS, "harness: everything ran");
    for (int i = 0; i < (int)next_; ++i)
    {
        if (finished[i]) VF_REACH("finished"); else if (waiting[i]) VF_REACH("left waiting");
        if (mq_n == 0) VF_ASSERT(started[i] == 1, "every added fiber is run");
    }
    if (next_ == N) VF_REACH("all added");
    sched_drop();
    VF_REACH("end");
}
