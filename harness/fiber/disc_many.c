/* F02: many disciplines with many callbacks: D disciplines of 1, 2 .. callbacks,
 * in growing or shrinking order of size; any code through some of them. */
#include "env.h"
#include "../psock/step.h"
#ifndef D
#define D 24
#endif
static fiber_scheduler_discipline* disc[D]; static rcpr_uuid ids[D]; static int ctx[D], param; static int size[D];
static unsigned calls; static int call_fn, call_ctx;
static status at(int fn, void* c, fiber* f, void* p)
{
    ++calls;
    call_fn = fn; call_ctx = (int)((int*)c - ctx);
    VF_ASSERT(f == main_fib && p == &param, "the yielding fiber and its parameter");
    return disciplined_fiber_scheduler_set_next_fiber_to_run(sched, f, &ids[0], 77, &param);
}
#define CB(n) static status cb##n(void* c, fiber* f, int e, void* p) { (void)e; return at(n, c, f, p); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7) CB(8) CB(9) CB(10) CB(11) CB(12) CB(13) CB(14) CB(15)
CB(16) CB(17) CB(18) CB(19) CB(20) CB(21) CB(22) CB(23)
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    fiber_scheduler_discipline_callback_fn cbs[24] = { &cb0, &cb1, &cb2, &cb3, &cb4, &cb5, &cb6, &cb7, &cb8, &cb9, &cb10, &cb11, &cb12, &cb13, &cb14, &cb15,
        &cb16, &cb17, &cb18, &cb19, &cb20, &cb21, &cb22, &cb23 };
    bool shrinking = vf_bool();
    if (shrinking) VF_ASSUME(1);
    for (int i = 0; i < D; ++i)
    {
        memset(&ids[i], 3, sizeof ids[i]);
        ids[i].data[i % 16] = (uint8_t)(40 + i);
        size[i] = 1 + (shrinking ? D - 1 - i : i);
        VF_ASSERT(fiber_scheduler_discipline_create(&disc[i], &ids[i], vf_allocator_get(), &ctx[i], (size_t)size[i], cbs) == STATUS_SUCCESS
            && fiber_scheduler_discipline_add(sched, disc[i]) == STATUS_SUCCESS, "a discipline is added");
    }
    for (int i = 0; i < D; ++i)
    {
        fiber_scheduler_discipline* got = NULL;
        VF_ASSERT(fiber_scheduler_discipline_find(&got, sched, &ids[i]) == STATUS_SUCCESS && got == disc[i], "a discipline is found by its identifier");
    }
    static const int which[] = { 0, 1, D / 2, D - 2, D - 1 };
    int w = which[step_len(5)];
    int code = vf_i32();
    const rcpr_uuid* id = NULL; int ev = -1; void* p = NULL;
    status st = fiber_discipline_yield(disc[w], code, &param, &id, &ev, &p);
    if (code < 0 || code >= size[w])
    {
        VF_ASSERT(st == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT && calls == 0, "a code outside the table is rejected and runs nothing");
        VF_REACH("code outside");
    }
    else
    {
        VF_ASSERT(calls == 1 && call_ctx == w && call_fn == code, "exactly the named handler is called");
        VF_ASSERT(st == STATUS_SUCCESS && id == &ids[0] && ev == 77 && p == &param, "the fiber resumes with what it was resumed with");
        VF_REACH("handled");
    }
    sched_drop();
    VF_REACH("end");
}
