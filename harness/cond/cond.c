/* C01: conditions.  N fibers each take up to STEPS steps: wait on, notify one
 * or all of, close or create a condition, or let the others run; the main
 * fiber runs them, and with INT may interrupt one that waits. */
#include "../fiber/env.h"
#include <rcpr/condition.h>
RCPR_IMPORT_condition;
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef CONDS
#define CONDS 1
#endif
#ifndef CREATE
#define CREATE 0
#endif
#ifndef CLOSE
#define CLOSE 1
#endif
#ifndef ANY
#define ANY 0
#endif
#ifndef INT
#define INT 0
#endif
#ifndef FAILS
#define FAILS 0
#endif
enum { MAXC = CONDS + CREATE * N * STEPS, PENDING = 0, WOKEN, CLOSED, INTERRUPTED };
typedef struct cond { bool open; conditional h; int w[N]; int n; } cond;
static cond conds[MAXC]; static int nconds;
static fiber* fibs[N]; static int ctx[N]; static int outcome[N]; static bool waiting[N], done[N], frozen; static unsigned returned[N];
static fiber_scheduler_discipline* condisc;
/* while what has happened is found out, nobody takes a step. */
static void thaw(void)
{
    while (frozen) VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "a fiber lets the others run");
}
static bool failed(int f) { return vf_failures > f; }
/* a failure says which: no memory, or no such condition */
static bool why(status st, int f, bool unknown) { return (failed(f) && st == ERROR_GENERAL_OUT_OF_MEMORY) || (unknown && st == ERROR_RBTREE_NOT_FOUND); }
static void do_create(void)
{
    VF_ASSERT(nconds < MAXC, "harness: room");
    conditional h = 0;
    int f = vf_failures;
    status st = conditional_create(&h, condisc);
    vf_may_fail = false;
    if (st != STATUS_SUCCESS) { VF_ASSERT(why(st, f, false), "a failure tells its cause"); VF_REACH("create failed"); return; }
    for (int i = 0; i < nconds; ++i) VF_ASSERT(!conds[i].open || conds[i].h != h, "open conditions have distinct handles");
    conds[nconds].open = true; conds[nconds].h = h;
    ++nconds;
    VF_REACH("created");
}
static cond* some_cond(conditional* h)
{
    int b = (int)vf_below(nconds + ANY);
    for (int i = 0; i < nconds + ANY; ++i) if (b == i) VF_ASSUME(1);
    if (b < nconds) { *h = conds[b].h; return conds[b].open ? &conds[b] : NULL; }
    *h = vf_u64();
    for (int i = 0; i < nconds; ++i) VF_ASSUME(*h != conds[i].h);
    return NULL;
}
static void drop_first(cond* c) { --c->n; for (int k = 0; k < c->n; ++k) c->w[k] = c->w[k + 1]; }
static void do_wait(int id)
{
    conditional h; cond* c = some_cond(&h);
    if (c) { c->w[c->n++] = id; waiting[id] = true; outcome[id] = PENDING; }
    int f = vf_failures;
    status st = conditional_wait(h, condisc);
    vf_may_fail = false;
    ++returned[id];
    thaw();
    if (c == NULL) { VF_ASSERT(why(st, f, true), "an unknown or closed condition is not waited on"); VF_REACH("no such condition"); return; }
    waiting[id] = false;
    if (st != STATUS_SUCCESS && failed(f) && outcome[id] == PENDING)
    {
        VF_ASSERT(why(st, f, false), "a failure tells its cause");
        VF_ASSERT(c->n > 0 && c->w[c->n - 1] == id, "a failed wait does not wait");
        --c->n;
        VF_REACH("wait failed");
        return;
    }
    VF_ASSERT(outcome[id] != PENDING, "a fiber waits until it is notified");
    VF_ASSERT((st == STATUS_SUCCESS) == (outcome[id] == WOKEN), "a wait succeeds when notified, and fails when the condition is closed or the wait interrupted");
    if (outcome[id] == WOKEN) VF_REACH("notified");
    else if (outcome[id] == CLOSED) VF_REACH("closed under a waiter");
    else VF_REACH("interrupted");
}
/* only some of the waiters were reached: the first ones. */
static void settle(cond* c, int* w, unsigned* before, int n)
{
    frozen = true;
    VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the woken fibers run");
    frozen = false;
    bool woken = true;
    int at = 0;
    for (int k = 0; k < n; ++k)
    {
        if (returned[w[k]] == before[k])
        {
            woken = false;
            outcome[w[k]] = PENDING;
            for (int j = c->n; j > at; --j) c->w[j] = c->w[j - 1];
            c->w[at++] = w[k];
            ++c->n;
        }
        else VF_ASSERT(woken, "the longest waiting are woken first");
    }
}
static void do_notify(bool all)
{
    conditional h; cond* c = some_cond(&h);
    int n = 0, w[N]; unsigned before[N];
    if (c)
    {
        while (c->n > 0 && (all || n == 0)) { w[n] = c->w[0]; outcome[w[n]] = WOKEN; before[n] = returned[w[n]]; ++n; drop_first(c); }
    }
    int f = vf_failures;
    /* until the notifier runs again, the newly waiting come after. */
    status st = all ? conditional_notify_all(h, condisc) : conditional_notify_one(h, condisc);
    vf_may_fail = false;
    thaw();
    if (c == NULL) { VF_ASSERT(why(st, f, true), "an unknown or closed condition is not notified"); VF_REACH("no such condition"); return; }
    if (st != STATUS_SUCCESS)
    {
        VF_ASSERT(why(st, f, false), "a failure tells its cause");
        VF_REACH("notify failed");
        settle(c, w, before, n);
        return;
    }
    for (int k = 0; k < n; ++k) VF_ASSERT(returned[w[k]] > before[k], "the notified run before the notifier");
    if (n == 0) VF_REACH("nobody to notify");
    else if (n > 1) VF_REACH("several notified");
}
static void do_close(void)
{
    conditional h; cond* c = some_cond(&h);
    if (c)
    {
        c->open = false;
        for (int k = 0; k < c->n; ++k) { outcome[c->w[k]] = CLOSED; VF_REACH("closed with a waiter"); }
        c->n = 0;
    }
    int f = vf_failures;
    status st = conditional_close(h, condisc);
    vf_may_fail = false;
    thaw();
    VF_ASSERT(c != NULL || why(st, f, true), "only an open condition is closed");
    if (c && st != STATUS_SUCCESS)
    {
        VF_ASSERT(why(st, f, false), "a failure tells its cause");
        VF_REACH("close failed");
        /* open as before, or closed: either way it can be done with. */
        st = conditional_close(h, condisc);
    }
}
static status body(void* p)
{
    int id = (int)((int*)p - ctx);
    thaw();
    for (int s = 0; s < STEPS; ++s)
    {
        unsigned k = vf_below(4 + CLOSE + CREATE);
        vf_may_fail = FAILS;
        if (k == 0) { VF_ASSUME(1); do_wait(id); }
        else if (k == 1) { VF_ASSUME(1); do_notify(false); }
        else if (k == 2) { VF_ASSUME(1); do_notify(true); }
        else if (k == 3)
        {
            VF_ASSUME(1);
            vf_may_fail = false;
            VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "a fiber lets the others run");
            thaw();
        }
        else if (CLOSE && k == 4) { VF_ASSUME(1); do_close(); }
        else { VF_ASSUME(1); do_create(); }
        vf_may_fail = false;
    }
    done[id] = true;
    return 0;
}
static void run_all(void)
{
    for (int k = 0; k < 2 * N * STEPS + 1; ++k) { vf_may_fail = false; VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run"); }
    vf_may_fail = false;
    for (int i = 0; i < N; ++i)
        VF_ASSERT(done[i] || (waiting[i] && outcome[i] == PENDING), "every notified fiber has run");
}
void vf_main(void)
{
    vf_may_fail = false; vf_max_failures = 1;
    sched_make();
    vf_may_fail = FAILS;
    int f = vf_failures;
    status st = condition_discipline_get_or_create(&condisc, vf_allocator_get(), sched);
    vf_may_fail = false;
    if (st != STATUS_SUCCESS) { VF_ASSERT(vf_failures > f, "a failure has a cause"); VF_REACH("no discipline"); sched_drop(); return; }
    fiber_scheduler_discipline* again = NULL;
    VF_ASSERT(condition_discipline_get_or_create(&again, vf_allocator_get(), sched) == STATUS_SUCCESS && again == condisc, "there is one discipline");
    for (int i = 0; i < CONDS; ++i) do_create();
    for (int i = 0; i < N; ++i)
        VF_ASSERT(fiber_create(&fibs[i], vf_allocator_get(), sched, 4096, &ctx[i], &body) == STATUS_SUCCESS
            && fiber_scheduler_add(sched, fibs[i]) == STATUS_SUCCESS, "a fiber is added");
    for (int r = 0; r < INT; ++r)
    {
        run_all();
        for (int i = 0; i < N; ++i) if (waiting[i] && outcome[i] == PENDING && vf_bool())
        {
            VF_ASSUME(1);
            for (int b = 0; b < nconds; ++b)
            {
                int m = 0;
                for (int k = 0; k < conds[b].n; ++k) if (conds[b].w[k] != i) conds[b].w[m++] = conds[b].w[k];
                conds[b].n = m;
            }
            outcome[i] = INTERRUPTED;
            vf_may_fail = false;
            VF_ASSERT(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, fibs[i]) == STATUS_SUCCESS, "a fiber is interrupted");
        }
    }
    run_all();
    sched_drop();
    VF_REACH("end");
}
