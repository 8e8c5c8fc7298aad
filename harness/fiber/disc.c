/* F02: which handler a yield reaches.  Up to D disciplines of 1..CB callbacks
 * with symbolic identifiers are added (any may repeat an identifier, any
 * allocation may fail), then any code is yielded through any of them. */
#include "env.h"
#include <src/fiber/common/fiber_internal.h>
RCPR_IMPORT_fiber_internal;
#ifndef RAW
#define RAW 0
#endif
#ifndef D
#define D 2
#endif
#ifndef CB
#define CB 2
#endif
#ifndef YIELDS
#define YIELDS 1
#endif
#ifndef IDS
#define IDS 1
#endif
#ifndef FAILS
#define FAILS 1
#endif
static fiber_scheduler_discipline* disc[D]; static rcpr_uuid ids[D + 1]; static size_t count[D]; static bool owned[D];
static int ctx[D], params[2]; static unsigned calls; static int call_fn, call_ctx; static fiber* expect_fib; static bool other_ran;
static fiber* other;
static rcpr_uuid rid_; static int rev; static void* rparam; static bool deny, to_other;
static status at(int fn, void* c, fiber* f, void* p)
{
    ++calls;
    call_fn = fn; call_ctx = (int)((int*)c - ctx);
    VF_ASSERT(call_ctx >= 0 && call_ctx < D && owned[call_ctx], "the context of an added discipline");
    VF_ASSERT(f == expect_fib && p == &params[0], "the yielding fiber and its parameter");
    if (deny) return 0x4321;
    /* resumed at once, or after another fiber has run. */
    return to_other ? disciplined_fiber_scheduler_add_fiber_to_run_queue(sched, f, &rid_, rev, rparam)
                    : disciplined_fiber_scheduler_set_next_fiber_to_run(sched, f, &rid_, rev, rparam);
}
static status cb0(void* c, fiber* f, int e, void* p) { (void)e; return at(0, c, f, p); }
static status cb1(void* c, fiber* f, int e, void* p) { (void)e; return at(1, c, f, p); }
static status cb2(void* c, fiber* f, int e, void* p) { (void)e; return at(2, c, f, p); }
static status body(void* c) { (void)c; other_ran = true; return 0; }
static void some_id(rcpr_uuid* u)
{
    memset(u, 7, sizeof *u);
    static uint8_t next = 20;
    if (IDS) { u->data[0] = vf_u8(); u->data[15] = vf_u8(); }
    else u->data[15] = ++next;
}
static bool same(const rcpr_uuid* a, const rcpr_uuid* b) { return memcmp(a, b, sizeof *a) == 0; }
void vf_main(void)
{
    vf_may_fail = false; vf_max_failures = 1;
    sched_make();
    size_t base = ((fiber_scheduler_disciplined_context*)sched->context)->callback_vector_size, given = 0;
    fiber_scheduler_discipline_callback_fn cbs[3] = { &cb0, &cb1, &cb2 };
    for (int i = 0; i < D; ++i)
    {
        some_id(&ids[i]);
        count[i] = 1;
        for (int k = 1; k < CB; ++k) if (vf_bool()) { VF_ASSUME(1); ++count[i]; } else break;
        vf_may_fail = FAILS;
        int f = vf_failures;
        status st = fiber_scheduler_discipline_create(&disc[i], &ids[i], vf_allocator_get(), &ctx[i], count[i], cbs);
        if (st != STATUS_SUCCESS) { VF_ASSERT(vf_failures > f, "a failure has a cause"); disc[i] = NULL; VF_REACH("create failed"); continue; }
        bool dup = same(&ids[i], &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE);
        for (int k = 0; k < i; ++k) if (owned[k] && same(&ids[k], &ids[i])) dup = true;
        f = vf_failures;
        st = fiber_scheduler_discipline_add(sched, disc[i]);
        vf_may_fail = false;
        owned[i] = st == STATUS_SUCCESS;
        if (dup) { VF_ASSERT(st == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID, "an identifier is added once"); VF_REACH("duplicate"); }
        else if (st != STATUS_SUCCESS) { VF_ASSERT(vf_failures > f, "a failure has a cause"); VF_REACH("add failed"); }
        if (!owned[i]) { VF_ASSERT(resource_release(fiber_scheduler_discipline_resource_handle(disc[i])) == STATUS_SUCCESS, "a discipline not added stays with its maker"); disc[i] = NULL; continue; }
        given += count[i];
        VF_ASSERT(fiber_scheduler_discipline_context_get(disc[i]) == &ctx[i], "a discipline has its context");
        fiber_scheduler* sc = NULL;
        VF_ASSERT(fiber_discipline_scheduler_get(&sc, disc[i]) == STATUS_SUCCESS && sc == sched, "and its scheduler");
        VF_ASSERT(fiber_scheduler_discipline_add(sched, disc[i]) == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED, "a discipline is added once");
    }
    vf_may_fail = false;
    /* found exactly when added. */
    some_id(&ids[D]);
    fiber_scheduler_discipline* got = NULL;
    status st = fiber_scheduler_discipline_find(&got, sched, &ids[D]);
    int at_ = -1;
    for (int i = 0; i < D; ++i) if (owned[i] && same(&ids[i], &ids[D])) at_ = i;
    if (at_ >= 0) { VF_ASSERT(st == STATUS_SUCCESS && got == disc[at_], "a discipline is found by its identifier"); VF_REACH("found"); }
    else { VF_ASSERT(st == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "no other is"); VF_REACH("not found"); }
    VF_ASSERT(fiber_create(&other, vf_allocator_get(), sched, 4096, NULL, &body) == STATUS_SUCCESS
        && fiber_scheduler_add(sched, other) == STATUS_SUCCESS, "another fiber");
    for (int y = 0; y < YIELDS; ++y)
    {
        int w = (int)vf_below(D);
        for (int i = 0; i < D; ++i) if (w == i) VF_ASSUME(1);
        if (!owned[w]) continue;
        int code = (int)vf_u32();
        rev = (int)vf_u32(); rparam = &params[vf_below(2)]; deny = vf_bool(); to_other = vf_bool();
        for (int i = 0; i < 16; ++i) rid_.data[i] = (uint8_t)(i + y);
        expect_fib = main_fib;
        calls = 0;
        bool ran = other_ran;
        const rcpr_uuid* id = NULL; int ev = -1; void* p = NULL;
        if (RAW)
        {
            /* the scheduler's own codes, those of the disciplines in the order added, and nothing else. */
            VF_ASSUME(code < 0 || (size_t)code >= base);
            st = fiber_scheduler_yield(sched, code, &params[0], &id, &ev, &p);
            if (code >= 0 && (size_t)code < base + given)
            {
                code -= (int)base; w = 0;
                while (!owned[w] || (size_t)code >= count[w]) { if (owned[w]) code -= (int)count[w]; ++w; }
            }
            else code = -1;
        }
        else st = fiber_discipline_yield(disc[w], code, &params[0], &id, &ev, &p);
        if (code < 0 || (size_t)code >= count[w])
        {
            VF_ASSERT(st == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT && calls == 0, "a code outside the table is rejected and runs nothing");
            VF_REACH("code outside");
        }
        else
        {
            VF_ASSERT(calls == 1 && call_ctx == w && call_fn == code, "exactly the named handler is called");
            if (deny) { VF_ASSERT(st == 0x4321 && other_ran == ran, "a handler's failure is the yield's"); VF_REACH("denied"); }
            else
            {
                VF_ASSERT(st == STATUS_SUCCESS && id == &rid_ && ev == rev && p == rparam, "the fiber resumes with what it was resumed with");
                VF_ASSERT(other_ran == (ran || to_other), "and in its turn");
                if (to_other) VF_REACH("resumed later"); else VF_REACH("resumed at once");
            }
        }
    }
    sched_drop();
    VF_REACH("end");
}
