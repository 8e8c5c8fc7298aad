/* The context switch is assembly; for the symbolic engine it is modelled by
 * its contract (the assembly itself is checked against this contract by the
 * check for property F04).  Natively the real assembly is linked. */
#include <rcpr/fiber.h>
#include <src/fiber/common/fiber_internal.h>

void vf_coro_make(void* key, void* fn, void* a0, void* a1);
void vf_coro_switch(void* from, void* to);

void RCPR_SYM(fiber_make)(
    RCPR_SYM(fiber)* fib, RCPR_SYM(fiber_scheduler)* sched,
    RCPR_SYM(fiber_entry_fn) entry)
{
    vf_coro_make(fib, (void*)entry, sched, fib);
}

void RCPR_SYM(fiber_switch)(
    RCPR_SYM(fiber)* prev, RCPR_SYM(fiber)* next,
    const RCPR_SYM(rcpr_uuid)* resume_disc_id, int64_t resume_event,
    void *resume_param)
{
    next->restore_discipline_id = resume_disc_id;
    next->restore_reason_code = resume_event;
    next->restore_param = resume_param;
    vf_coro_switch(prev, next);
}
