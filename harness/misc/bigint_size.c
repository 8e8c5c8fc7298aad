/* B02: any bit size a caller can ask for. */
#include "../vf_alloc.h"
#include <rcpr/bigint.h>
RCPR_IMPORT_bigint;
void vf_main(void)
{
    vf_may_fail = false;
    vf_max_block = 256;
    size_t bits = vf_size();
    bigint* x = NULL;
    status s = bigint_create_zero(&x, vf_allocator_get(), bits);
    if (s == STATUS_SUCCESS)
    {
        VF_ASSERT(bits <= 256 * 8, "a size that does not fit in memory is refused");
        VF_ASSERT(resource_release(bigint_resource_handle(x)) == STATUS_SUCCESS, "release succeeds");
        VF_REACH("created");
    }
    else
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && x == NULL, "a failed creation publishes nothing");
        VF_ASSERT(vf_failures == 1, "only the allocator refuses");
        VF_ASSERT(vf_last_request >= bits / 8 + (bits % 8 > 0), "the block asked for has room for the bits");
        VF_ASSERT(vf_last_request - 128 < bits / 8, "and little more");
        VF_REACH("refused");
        if (bits > UINT64_MAX - 8) VF_REACH("largest");
    }
    VF_ASSERT(vf_live == 0, "nothing leaks");
    VF_REACH("end");
}
