/* S04: strdup and strcat over every list of <= 3 strings of length <= N. */
#include "str.h"

static void same(const sstr* x)
{
    for (unsigned i = 0; i <= x->len; ++i) VF_ASSERT(x->s[i] == x->o[i], "the inputs are not modified");
}

void vf_main(void)
{
    allocator* a = vf_allocator_get();
    sstr x[3];
    char* out = (char*)0x10;
    status s;
    unsigned k = vf_below(5);
    unsigned total = 0;
#ifdef LONG
    VF_ASSUME(k == 2 || k == 4);
#endif
    vf_may_fail = true;
    if (k == 4)
    {
        mk(&x[0], anylen());
        s = rs_strdup(&out, a, x[0].s);
        k = 1;
    }
    else
    {
        for (unsigned i = 0; i < k; ++i) mk(&x[i], anylen());
        if (k == 0) s = rs_strcatv(&out, a, NULL);
        else if (k == 1) s = rs_strcatv(&out, a, x[0].s, NULL);
        else if (k == 2) s = rs_strcatv(&out, a, x[0].s, x[1].s, NULL);
        else s = rs_strcatv(&out, a, x[0].s, x[1].s, x[2].s, NULL);
    }
    for (unsigned i = 0; i < k; ++i) { total += x[i].len; same(&x[i]); }
    if (vf_failures)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY, "an allocation failure is reported as out of memory");
        VF_ASSERT(vf_live == 0, "nothing is leaked on failure");
        VF_REACH("failed");
    }
    else
    {
        VF_ASSERT(s == STATUS_SUCCESS, "duplication and concatenation succeed");
        VF_ASSERT(vf_live == 1, "exactly one block is drawn");
        unsigned at = 0;
        for (unsigned i = 0; i < k; ++i)
        {
            VF_ASSERT(out != x[i].s, "the result is a fresh string");
            for (unsigned j = 0; j < x[i].len; ++j)
                VF_ASSERT(out[at + j] == x[i].o[j], "the result is the inputs joined in order");
            at += x[i].len;
        }
        VF_ASSERT(out[total] == 0, "the result is terminated");
        VF_ASSERT(allocator_reclaim(a, out) == STATUS_SUCCESS, "the result belongs to the allocator given");
        VF_REACH("copied");
        if (k == 3) VF_REACH("three");
    }
    for (unsigned i = 0; i < k; ++i) free(x[i].s);
}
