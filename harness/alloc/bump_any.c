/* A03: a region of any size up to 2^46 bytes and two requests of any size;
 * the blocks are not touched. */
#include "../vf.h"
#include <rcpr/allocator.h>
#include <rcpr/resource/protected.h>
#include <string.h>
RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;
static _Alignas(16) uint8_t buf[256];
static size_t R, bp[3], bs[3], top; static unsigned nb;
static allocator* a;
static void take(size_t base)
{
    size_t n = vf_size();
    void* p = &n;
    status s = allocator_allocate(a, &p, n);
    size_t al = (top + 15) & ~(size_t)15;
    if (s == STATUS_SUCCESS)
    {
        size_t at = (size_t)((uintptr_t)p - (uintptr_t)buf);
        VF_ASSERT(at > base, "a block comes after the allocator");
        VF_ASSERT((at <= base + R) & (n <= base + R - at), "a block lies inside the region");
        VF_ASSERT(((uintptr_t)p & 15) == 0, "a block is aligned to sixteen bytes");
        for (unsigned k = 0; k < nb; ++k) VF_ASSERT((at >= bp[k] + bs[k]) | (at + n <= bp[k]), "blocks do not overlap");
        bp[nb] = at; bs[nb] = n; ++nb;
        top = at + n;
        if (n > UINT32_MAX) VF_REACH("large block");
        return;
    }
    VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && p == NULL, "a request that does not fit is out of memory");
    VF_ASSERT((al >= base + R) | (n >= base + R - al), "a request with room to spare is granted");
    VF_REACH("does not fit");
}
void vf_main(void)
{
    size_t base = 8;
    R = vf_size();
    VF_ASSUME(R >= 128 && R <= (size_t)1 << 46);
    VF_ASSERT(bump_allocator_create(&a, buf + base, R) == STATUS_SUCCESS, "a region is accepted");
    top = base + 64;
    take(base);
    if (vf_bool())
    {
        VF_ASSUME(1);
        VF_ASSERT(allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0) == STATUS_SUCCESS, "a reset succeeds");
        nb = 0; top = base + 64;
        VF_REACH("reset");
    }
    take(base);
    if (nb == 2 && bp[1] > UINT32_MAX) VF_REACH("far block");
    VF_ASSERT(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS, "the allocator is released");
    VF_REACH("end");
}
