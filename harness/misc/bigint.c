/* B02: every bit size up to BITS (any remainder), every digit value, every
 * allocation failure. */
#include "../vf_alloc.h"
#include <string.h>
#include <rcpr/bigint.h>
#include <src/bigint/bigint_internal.h>
RCPR_IMPORT_bigint;
#ifndef BITS
#define BITS 200
#endif
void vf_main(void)
{
    allocator* a = vf_allocator_get();
    size_t bits = vf_below(BITS + 1);
    bigint* x = NULL; bigint* y = NULL;
    vf_may_fail = true;
    status s = bigint_create_zero(&x, a, bits);
    if (vf_failures)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && vf_live == 0 && x == NULL, "a failed creation leaks and publishes nothing");
        VF_REACH("create failed");
        return;
    }
    VF_ASSERT(s == STATUS_SUCCESS, "creation succeeds");
    VF_ASSERT(x->length * 64 >= bits && x->length * 64 < bits + 64 + 8, "there is storage for the bits asked for");
    VF_ASSERT(!x->sign, "zero has no sign");
    unsigned n = 0;
    for (; n <= BITS / 64 + 1; ++n) if (x->length == n) break;
    for (unsigned i = 0; i < n; ++i) VF_ASSERT(x->array[i] == 0, "every digit is zero");
    uint64_t d[BITS / 64 + 2];
    for (unsigned i = 0; i < n; ++i) d[i] = x->array[i] = vf_u64();
    bool sign = x->sign = vf_bool();
    s = bigint_clone(&y, vf_allocator_get2(), x);
    if (vf_failures)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && vf_live == 2 && vf_live2 == 0 && y == NULL, "a failed clone leaks and publishes nothing");
        VF_REACH("clone failed");
    }
    else
    {
        VF_ASSERT(s == STATUS_SUCCESS, "clone succeeds");
        VF_ASSERT(y != x && y->array != x->array && y->length == n && y->sign == sign, "the clone has the same size and sign and its own storage");
        for (unsigned i = 0; i < n; ++i) VF_ASSERT(y->array[i] == d[i], "the clone has the same digits");
        for (unsigned i = 0; i < n; ++i) y->array[i] = ~y->array[i];
    }
    for (unsigned i = 0; i < n; ++i) VF_ASSERT(x->array[i] == d[i], "the original is not affected");
    VF_ASSERT(x->length == n && x->sign == sign, "the original is not affected");
    bool first = vf_bool();
    if (y && first)
    {
        VF_ASSERT(resource_release(bigint_resource_handle(x)) == STATUS_SUCCESS && vf_live == 0 && vf_live2 == 2, "releasing the original reclaims its two blocks");
        for (unsigned i = 0; i < n; ++i) VF_ASSERT(y->array[i] == ~d[i], "the clone outlives the original");
        VF_REACH("original first");
    }
    if (y) VF_ASSERT(resource_release(bigint_resource_handle(y)) == STATUS_SUCCESS && vf_live2 == 0, "releasing the clone reclaims what it drew from its allocator");
    if (!y || !first)
    {
        for (unsigned i = 0; i < n; ++i) VF_ASSERT(x->array[i] == d[i], "the original outlives the clone");
        VF_ASSERT(resource_release(bigint_resource_handle(x)) == STATUS_SUCCESS, "releasing the original succeeds");
    }
    VF_ASSERT(vf_live == 0 && vf_live2 == 0, "everything drawn is reclaimed");
    VF_REACH("end");
}
