/* G01: the control-flow macros of rcpr/control.h over every status each step
 * may give. */
#include <rcpr/control.h>
#include "../vf.h"
enum { N = 3 };
static status ans[N], cans[N];
static unsigned ran, cleaned, runs[N], cruns[N];
static status step(unsigned i) { VF_ASSERT(i == ran, "the operations run in order"); ++ran; ++runs[i]; return ans[i]; }
static status clean(unsigned i) { ++cleaned; ++cruns[i]; return cans[i]; }
static status work(bool second)
{
    CONTROL_PREAMBLE;
    /* operations of every form an argument may have. */
    TRY_OR_FAIL(step(0), done);
    TRY_OR_FAIL(second ? step(1) : ans[1], cleanup_first);
    TRY_OR_FAIL((++cleaned, --cleaned, step(second ? 2 : 1)), cleanup_second);
    goto done;
cleanup_second:
    CLEANUP_OR_CASCADE(second ? clean(1) : STATUS_SUCCESS);
cleanup_first:
    CLEANUP_OR_CASCADE(clean(0));
done:
    return retval;
}
/* as the single statement of a branch's block, and several in one function. */
static status always(void)
{
    CONTROL_PREAMBLE;
    retval = ans[0];
    for (unsigned i = 0; i < N; ++i) { CLEANUP_OR_CASCADE(clean(i)); }
    return retval;
}
void vf_main(void)
{
    for (unsigned i = 0; i < N; ++i) { ans[i] = (status)vf_u32(); cans[i] = (status)vf_u32(); }
    if (vf_bool())
    {
        bool second = vf_bool();
        if (!second) VF_ASSUME(ans[1] == 0);
        status st = work(second), want;
        unsigned last = second ? 2 : 1;
        if (ans[0]) { want = ans[0]; VF_ASSERT(ran == 1 && cleaned == 0, "nothing runs after a failure"); VF_REACH("first failed"); }
        else if (second && ans[1]) { want = cans[0] ? cans[0] : ans[1]; VF_ASSERT(ran == 2 && cleaned == 1 && cruns[0] == 1, "only what was done is cleaned up"); VF_REACH("second failed"); }
        else if (ans[last])
        {
            want = cans[0] ? cans[0] : second && cans[1] ? cans[1] : ans[last];
            VF_ASSERT(ran == last + 1 && cleaned == (second ? 2 : 1) && cruns[0] == 1, "everything done is cleaned up once");
            VF_REACH("third failed");
        }
        else { want = STATUS_SUCCESS; VF_ASSERT(ran == last + 1 && cleaned == 0, "every operation runs once"); VF_REACH("all done"); }
        VF_ASSERT(st == want, "the failure is reported, or a later one of the cleanup");
    }
    else
    {
        status st = always(), want = ans[0];
        for (unsigned i = 0; i < N; ++i) { VF_ASSERT(cruns[i] == 1, "each cleanup runs once, whatever failed before"); if (cans[i]) want = cans[i]; }
        VF_ASSERT(st == want, "no failure is lost, and success loses none");
        VF_REACH("cleaned");
    }
}
