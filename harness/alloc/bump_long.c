/* A large region: COUNT requests, their sizes from two symbolically chosen
 * ones in turn, then requests of any size; after a reset again. */
#include "../vf.h"
#include "../psock/step.h"
#include <rcpr/allocator.h>
#include <rcpr/resource/protected.h>
#include <string.h>
RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;
#ifndef R
#define R 400000
#endif
#ifndef COUNT
#define COUNT 300
#endif
static _Alignas(16) uint8_t buf[R + 32];
static size_t bp[COUNT + 1], bs[COUNT + 1]; static unsigned nb;
static size_t top;
static allocator* a;
static bool take(size_t n, size_t base)
{
    void* p = &n;
    status s = allocator_allocate(a, &p, n);
    if (s == STATUS_SUCCESS)
    {
        size_t at = (size_t)((uint8_t*)p - buf);
        VF_ASSERT((uintptr_t)p >= (uintptr_t)buf && at >= base, "a block starts inside the region");
        VF_ASSERT(at <= base + R && n <= base + R - at, "a block ends inside the region");
        VF_ASSERT(((uintptr_t)p & 15) == 0, "a block is aligned to sixteen bytes");
        for (unsigned k = 0; k < nb; ++k) VF_ASSERT(at >= bp[k] + bs[k] || at + n <= bp[k], "blocks do not overlap");
        bp[nb] = at; bs[nb] = n; ++nb;
        top = at + n;
        return true;
    }
    VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && p == NULL, "a request that does not fit is out of memory");
    size_t al = (top + 15) & ~(size_t)15;
    VF_ASSERT(al >= base + R || n >= base + R - al, "a request with room to spare is granted");
    VF_REACH("does not fit");
    return false;
}
static void fill(unsigned k) { if (bs[k]) { buf[bp[k]] = (uint8_t)k; buf[bp[k] + bs[k] - 1] = (uint8_t)k; } }
static void kept(void)
{
    for (unsigned k = 0; k < nb; ++k) if (bs[k]) VF_ASSERT(buf[bp[k]] == (uint8_t)k && buf[bp[k] + bs[k] - 1] == (uint8_t)k, "a block's bytes are the caller's");
}
void vf_main(void)
{
    size_t base = vf_bool() ? 8 : 0;
    VF_ASSERT(bump_allocator_create(&a, buf + base, R) == STATUS_SUCCESS, "a large region is accepted");
    top = base + 64;
    static const size_t sizes[] = { 0, 1, 16, 255, 257, 4096, 4097, 65535, 65536, 131073 };
    unsigned rounds = 1 + (unsigned)step_len(2);
    size_t x = sizes[step_len(10)], y = sizes[step_len(10)];
    for (unsigned r = 0; r < rounds; ++r)
    {
        for (unsigned k = 0; k < COUNT; ++k)
        {
            if (!take(k % 2 ? x : y, base)) break;
            fill(nb - 1);
        }
        kept();
        if (take(vf_size(), base)) VF_REACH("any size");
        for (unsigned k = 0; k + 1 < nb; ++k) if (bs[k]) VF_ASSERT(buf[bp[k]] == (uint8_t)k, "a block's bytes are the caller's");
        if (r + 1 < rounds)
        {
            VF_ASSERT(allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0) == STATUS_SUCCESS, "reset succeeds");
            nb = 0;
            top = base + 64;
            VF_REACH("again");
        }
    }
    VF_ASSERT(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS, "release succeeds");
    VF_REACH("end");
}
