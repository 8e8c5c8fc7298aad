/* F05: a scheduler made from the user's callback.  The callback is told each
 * event with the fiber that caused it, and decides symbolically which fiber
 * runs next and with what; exactly that fiber continues, with exactly that.
 * CREATE: every way creation and release may fail. */
#include "env.h"
#include <rcpr/status.h>
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef MSTEPS
#define MSTEPS 2
#endif
#ifndef CREATE
#define CREATE 0
#endif
#ifndef REFUSE
#define REFUSE 1                       /* calls of the callback that may fail */
#endif
enum { MAIN = N, NONE = -1 };
enum call { C_NONE, C_MAIN, C_ADD, C_YIELD, C_RUN, C_STOP, C_RELEASE };
static fiber* fibs[N + 1];
static int ctxs[N + 1], token; static bool left;
static unsigned next_, started[N];
static bool stopped[N], offered[N];
static fiber_scheduler* told;           /* the scheduler under test */
/* what the running fiber asked for. */
static int who = MAIN; static enum call call; static int ask_event; static void* ask_param; static int added = NONE;
/* what the callback answered. */
static int to; static const rcpr_uuid* give_id; static int give_event; static void* give_param;
static unsigned calls, refusals; static status refusal;
static status stop_status[N];
static status bad_main; static int main_mode;
static status callback(void* c, fiber* f, int ev, void* p, fiber** rf, const rcpr_uuid** rid, int* rev, void** rp)
{
    ++calls;
    VF_ASSERT(c == &token, "the callback gets its context");
    switch (call)
    {
        case C_MAIN:
            VF_ASSERT(ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN && p == NULL, "the first event is that of the main fiber");
            VF_ASSERT(f != NULL && fiber_state_get(f) == FIBER_STATE_RUNNING, "the main fiber runs already");
            fibs[MAIN] = f;
            call = C_RELEASE;
            *rf = f; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rp = NULL;
            if (main_mode == 1) { *rf = NULL; }
            if (main_mode == 2) { *rev = vf_i32(); VF_ASSUME(*rev != FIBER_SCHEDULER_RESUME_EVENT_MAIN); }
            if (main_mode == 3) return bad_main;
            return STATUS_SUCCESS;
        case C_RELEASE:
            VF_ASSERT(ev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE && p == NULL && f == fibs[MAIN], "the last event is the release");
            call = C_NONE;
            *rf = NULL; *rev = 0; *rp = NULL;
            for (int i = 0; i < N; ++i) if (offered[i]) VF_ASSERT(resource_release(fiber_resource_handle(fibs[i])) == STATUS_SUCCESS, "a fiber is released");
            return refusal;
        default: break;
    }
    VF_ASSERT(call != C_NONE, "the callback is called for requests only");
    VF_ASSERT(f == fibs[who], "the callback is told which fiber yields");
    switch (call)
    {
        case C_ADD: VF_ASSERT(ev == FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER && p == fibs[added], "it is told which fiber is added"); break;
        case C_RUN: VF_ASSERT(ev == FIBER_SCHEDULER_YIELD_EVENT_RUN && p == NULL, "it is told to run"); break;
        case C_STOP:
            VF_ASSERT(ev == FIBER_SCHEDULER_YIELD_EVENT_STOP, "it is told that a fiber stopped");
            VF_ASSERT(*(status*)p == stop_status[who], "and with what");
            VF_ASSERT(fiber_state_get(f) == FIBER_STATE_STOPPED, "a stopped fiber's state says so");
            break;
        default: VF_ASSERT(ev == ask_event && p == ask_param, "a yield's event and parameter are passed on"); break;
    }
    if (call != C_STOP && refusals < REFUSE && vf_bool())
    {
        VF_ASSUME(1);
        ++refusals;
        refusal = vf_i32();
        VF_ASSUME(refusal != STATUS_SUCCESS);
        return refusal;
    }
    refusal = STATUS_SUCCESS;
    if (call == C_ADD) offered[added] = true;
    /* any fiber that can run is next, the caller itself included. */
    to = NONE;
    unsigned k = vf_below(N + 1);
    for (int i = 0; i <= N; ++i) if (k == (unsigned)i) { VF_ASSUME(i == MAIN || (offered[i] && !stopped[i])); to = i; break; }
    call = C_NONE;
    /* the identifier and parameter are any pointers; the first may be left alone. */
    if (!left && vf_bool()) { VF_ASSUME(1); left = true; give_id = *rid; }
    else *rid = give_id = (const rcpr_uuid*)(uintptr_t)vf_u64();
    *rev = give_event = vf_i32();
    *rp = give_param = (void*)(uintptr_t)vf_u64();
    *rf = fibs[to];
    return STATUS_SUCCESS;
}
static void resumed(int id)
{
    VF_ASSERT(to == id, "exactly the fiber the callback named runs");
    who = id;
    to = NONE;
}
static void yield_(int id, bool run)
{
    const rcpr_uuid* rid = NULL; int ev = 0; void* p = NULL;
    unsigned n = calls;
    status st;
    refusal = STATUS_SUCCESS;
    if (run) { call = C_RUN; st = fiber_scheduler_run(told); }
    else
    {
        call = C_YIELD; ask_event = vf_i32(); ask_param = (void*)(uintptr_t)vf_u64();
        st = fiber_scheduler_yield(told, ask_event, ask_param, &rid, &ev, &p);
    }
    if (calls == n + 1 && refusal != STATUS_SUCCESS && to == NONE && who == id && call != C_NONE)
    {
        VF_ASSERT(st == refusal, "the callback's refusal is the answer");
        call = C_NONE;
        VF_REACH("refused");
        return;
    }
    resumed(id);
    VF_ASSERT(st == STATUS_SUCCESS, "a resumed fiber's yield succeeds");
    if (!run) { VF_ASSERT(rid == give_id && ev == give_event && p == give_param, "a fiber resumes with what the callback gave"); VF_REACH("yielded"); }
    else VF_REACH("run");
}
static status body(void* c);
static void add(int id)
{
    if (next_ >= N) return;
    int k = (int)next_++;
    VF_ASSERT(fiber_create(&fibs[k], vf_allocator_get(), told, 4096, &ctxs[k], &body) == STATUS_SUCCESS, "a fiber is made");
    VF_ASSERT(fiber_state_get(fibs[k]) == FIBER_STATE_CREATED, "a new fiber has not run");
    VF_ASSERT(fiber_scheduler_from_fiber_get(fibs[k]) == told, "a fiber knows its scheduler");
    call = C_ADD; added = k;
    unsigned n = calls;
    refusal = STATUS_SUCCESS;
    status st = fiber_scheduler_add(told, fibs[k]);
    if (!offered[k])
    {
        VF_ASSERT(calls == n + 1 && st != STATUS_SUCCESS && st == refusal && who == id, "the callback's refusal is the answer");
        call = C_NONE;
        VF_ASSERT(resource_release(fiber_resource_handle(fibs[k])) == STATUS_SUCCESS, "a fiber not added stays with its maker");
        stopped[k] = true;
        VF_REACH("add refused");
        return;
    }
    resumed(id);
    VF_ASSERT(st == STATUS_SUCCESS, "a fiber is added");
    VF_REACH("added");
}
static status body(void* c)
{
    int id = (int)((int*)c - ctxs);
    VF_ASSERT(id >= 0 && id < N && c == &ctxs[id] && offered[id], "a fiber gets its own context");
    resumed(id);
    VF_ASSERT(fiber_state_get(fibs[id]) == FIBER_STATE_RUNNING, "a started fiber's state says so");
    VF_ASSERT(++started[id] == 1, "a fiber starts once");
    for (int s = 0; s < STEPS; ++s)
    {
        unsigned k = vf_below(3);
        if (k == 0) { VF_ASSUME(1); break; }
        if (k == 1) { VF_ASSUME(1); yield_(id, false); }
        else { VF_ASSUME(1); add(id); }
    }
    stopped[id] = true;
    stop_status[id] = vf_i32();
    call = C_STOP;
    VF_REACH("stopped");
    return stop_status[id];
}
void vf_main(void)
{
    vf_may_fail = false;
    vf_max_failures = 1;
    call = C_MAIN;
#if CREATE
    vf_may_fail = true;
    main_mode = (int)vf_below(4);
    for (int i = 0; i < 3; ++i) if (main_mode == i) { main_mode = i; break; }
    bad_main = vf_i32(); refusal = vf_i32();
    VF_ASSUME(bad_main != STATUS_SUCCESS);
    told = (fiber_scheduler*)&token;
    status st = fiber_scheduler_create(&told, vf_allocator_get(), &token, &callback);
    if (st != STATUS_SUCCESS)
    {
        VF_ASSERT(told == NULL, "a failed creation gives nothing out");
        VF_ASSERT(vf_live == 0, "a failed creation keeps nothing");
        if (vf_failures) { VF_ASSERT(st == ERROR_GENERAL_OUT_OF_MEMORY && calls == 0, "the lack of memory is reported"); VF_REACH("out of memory"); }
        else
        {
            VF_ASSERT(main_mode != 0 && call == C_NONE && calls == 2, "a callback told of the main fiber is told of the release");
            if (refusal != STATUS_SUCCESS) { VF_ASSERT(st == refusal, "a failing release is reported"); VF_REACH("release failed"); }
            else if (main_mode == 3) { VF_ASSERT(st == bad_main, "the callback's failure is reported"); VF_REACH("main refused"); }
            else { VF_ASSERT(st == ERROR_FIBER_SCHEDULER_CALLBACK_STATE, "a wrong answer is reported"); VF_REACH("wrong answer"); }
        }
        return;
    }
    VF_ASSERT(main_mode == 0 && vf_failures == 0 && calls == 1, "a failure is reported");
    vf_may_fail = false;
    st = resource_release(fiber_scheduler_resource_handle(told));
    VF_ASSERT(st == refusal && calls == 2 && call == C_NONE, "the callback is told of the release and its answer is that of the release");
    VF_ASSERT(vf_live == 0, "nothing is kept");
    VF_REACH("created");
    return;
#endif
    VF_ASSERT(fiber_scheduler_create(&told, vf_allocator_get(), &token, &callback) == STATUS_SUCCESS && told != NULL && calls == 1, "the scheduler is made");
    call = C_NONE;
    add(MAIN);
    for (int s = 0; s < MSTEPS; ++s)
    {
        unsigned k = vf_below(3);
        if (k == 0) { VF_ASSUME(1); add(MAIN); }
        else if (k == 1) { VF_ASSUME(1); yield_(MAIN, true); }
        else { VF_ASSUME(1); yield_(MAIN, false); }
    }
    call = C_RELEASE; refusal = STATUS_SUCCESS;
    unsigned n = calls;
    VF_ASSERT(resource_release(fiber_scheduler_resource_handle(told)) == STATUS_SUCCESS && calls == n + 1, "the scheduler is released");
    VF_ASSERT(maps_live == 0 && vf_live == 0, "nothing is kept");
    VF_REACH("end");
}
