/* T01: every history of STEPS calls of signal/register/step, where a callback
 * itself makes up to two arbitrary signal/register calls. */
#include "../vf_alloc.h"
#include <string.h>
#include <rcpr/auto_reset_trigger.h>
RCPR_IMPORT_auto_reset_trigger;
#ifndef STEPS
#define STEPS 4
#endif

static auto_reset_trigger* t;
static bool sig, reg, stepping;
static int ctx[2], want_ctx, calls, inner;

static void cb(void* c);
static void cb2(void* c);
static bool want_cb2;
static void do_signal(void) { auto_reset_trigger_signal(t); sig = true; }
static void do_register(void)
{
    unsigned c = vf_bool();
    bool second = vf_bool();
    status s = auto_reset_trigger_register(t, second ? &cb2 : &cb, &ctx[c]);
    if (reg) VF_ASSERT(s == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED, "a second listener is rejected and the first kept");
    else { VF_ASSERT(s == STATUS_SUCCESS, "a listener registers when there is none"); reg = true; want_ctx = c; want_cb2 = second; }
}
static void deliver(void* c, bool second)
{
    ++calls;
    VF_ASSERT(stepping, "the callback runs during a step only");
    VF_ASSERT(c == &ctx[want_ctx] && second == want_cb2, "the registered callback gets its own context");
    VF_ASSERT(sig && reg, "the callback runs when trigger and listener are both present");
    sig = reg = false;
    for (int i = 0; i < 2; ++i)
    {
        unsigned op = vf_below(3);
        if (op == 0) break;
        if (op == 1) { do_signal(); VF_REACH("signal in callback"); }
        else { do_register(); VF_REACH("register in callback"); }
    }
}
static void cb(void* c) { deliver(c, false); }
static void cb2(void* c) { deliver(c, true); }

void vf_main(void)
{
    vf_may_fail = true;
    status s = auto_reset_trigger_create(&t, vf_allocator_get());
    if (vf_failures) { VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && vf_live == 0, "creation fails cleanly"); return; }
    VF_ASSERT(s == STATUS_SUCCESS, "creation succeeds");
    vf_may_fail = false;
    for (int i = 0; i < STEPS; ++i)
    {
        unsigned op = vf_below(3);
        if (op == 0) do_signal();
        else if (op == 1) do_register();
        else
        {
            bool due = sig && reg;
            int before = calls;
            stepping = true;
            auto_reset_trigger_step(t);
            stepping = false;
            VF_ASSERT(calls == before + (due ? 1 : 0), "a step that finds both present delivers exactly once, any other not at all");
            if (due) VF_REACH("delivered"); else VF_REACH("not due");
        }
    }
    VF_ASSERT(resource_release(auto_reset_trigger_resource_handle(t)) == STATUS_SUCCESS && vf_live == 0, "release reclaims everything");
    VF_REACH("end");
}
