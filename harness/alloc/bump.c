/* Bump allocator: every program of STEPS requests of any 64-bit size, on every
 * region size up to R, at either alignment of the region. */
#include "../vf.h"
#include <rcpr/allocator.h>
#include <rcpr/resource/protected.h>
#include <string.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;

#ifndef R
#define R 144
#endif
#ifndef STEPS
#define STEPS 3
#endif

static _Alignas(16) uint8_t buf[R + 16 + 16];
static uint8_t before[R + 16 + 16];
static bool own[R + 16 + 16];
static size_t bp[STEPS], bs[STEPS];
static unsigned nb;

/* whatever the allocator wrote is its own state: never inside a block. */
static void observe(size_t base)
{
    for (size_t i = 0; i < sizeof(buf); ++i)
        if (own[i] || buf[i] != before[i])
        {
            VF_ASSERT(i >= base && i < base + R, "the allocator writes inside its region only");
            for (unsigned k = 0; k < nb; ++k)
                VF_ASSERT(!(bp[k] <= i && i < bp[k] + bs[k]), "the allocator keeps its state out of the blocks it handed out");
            own[i] = true;
            before[i] = buf[i];
        }
}

/* the block [at, at+n) keeps clear of every run of state bytes. */
static void clear_of_state(size_t at, size_t n)
{
    for (size_t i = 0; i < sizeof(buf); ++i)
        if (own[i])
        {
            size_t j = i;
            while (j < sizeof(buf) && own[j]) ++j;
            VF_ASSERT(n == 0 || at >= j || at + n <= i, "a block does not overlap the allocator's state");
            i = j;
        }
}

void vf_main(void)
{
    size_t base = vf_bool() ? 8 : 0;
    size_t rs = vf_size();
    VF_ASSUME(rs <= R);
    memset(buf, 0xa5, sizeof(buf));
    memset(before, 0xa5, sizeof(before));
    allocator* a = (allocator*)buf;
    uint8_t* region = buf + base;
    status s = bump_allocator_create(&a, region, rs);
    observe(base);
    if (s != STATUS_SUCCESS)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && a == NULL, "a region too small is reported as out of memory with no allocator");
        VF_ASSERT(rs < 64, "a region with room for the allocator's state is accepted");
        for (size_t i = 0; i < sizeof(buf); ++i) VF_ASSERT(!own[i], "nothing is written on failure");
        VF_REACH("region too small");
        return;
    }
    for (size_t i = 0; i < sizeof(buf); ++i)
        if (own[i]) VF_ASSERT(i < base + rs, "the allocator's state lies in the region");
    /* lower bound of what is free: everything from here on is unused. */
    size_t top = 0;
    bool known_top = false;
    for (unsigned step = 0; step < STEPS; ++step)
    {
        unsigned op = vf_below(4);
        if (op == 0)
        {
            size_t n = vf_size();
            void* p = &step;
            s = allocator_allocate(a, &p, n);
            observe(base);
            if (s == STATUS_SUCCESS)
            {
                size_t at = (size_t)((uint8_t*)p - buf);
                VF_ASSERT((uintptr_t)p >= (uintptr_t)buf && at >= base, "a block starts inside the region");
                VF_ASSERT(at <= base + rs && n <= base + rs - at, "a block ends inside the region");
                VF_ASSERT(((uintptr_t)p & 15) == 0, "a block is aligned to sixteen bytes");
                clear_of_state(at, n);
                for (unsigned k = 0; k < nb; ++k)
                    VF_ASSERT(at >= bp[k] + bs[k] || at + n <= bp[k], "blocks do not overlap");
                bp[nb] = at; bs[nb] = n; ++nb;
                top = at + n; known_top = true;
                VF_REACH("block");
                if (nb == 2) VF_REACH("two blocks");
            }
            else
            {
                VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY, "a request that does not fit is out of memory");
                VF_ASSERT(p == NULL, "no pointer is given out on failure");
                if (known_top)
                {
                    size_t al16 = (top + 15) & ~(size_t)15;
                    VF_ASSERT(al16 >= base + rs || n >= base + rs - al16, "a request with room to spare is granted, also after a failed one");
                }
                VF_REACH("does not fit");
            }
        }
        else if (op == 1)
        {
            s = allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0);
            observe(base);
            VF_ASSERT(s == STATUS_SUCCESS, "reset succeeds");
            nb = 0; known_top = false;
            VF_REACH("reset");
        }
        else if (op == 2)
        {
            int key = vf_i32();
            VF_ASSUME(key != RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET);
            s = allocator_control(a, key, NULL, 0);
            observe(base);
            VF_ASSERT(s == ERROR_GENERAL_CONTROL_KEY_INVALID, "an unknown control key is rejected");
        }
        else
        {
            VF_ASSUME(nb > 0);
            void* p = buf + bp[0];
            void* was = p;
            if (vf_bool())
            {
                s = allocator_reallocate(a, &p, vf_size());
                VF_ASSERT(s == ERROR_GENERAL_REALLOCATION_NOT_SUPPORTED && p == was, "reallocation is refused and leaves the pointer");
            }
            else
            {
                s = allocator_reclaim(a, p);
                VF_ASSERT(s == STATUS_SUCCESS, "reclaim succeeds");
            }
            observe(base);
            VF_REACH("reallocate or reclaim");
        }
    }
    /* release touches the region only. */
    nb = 0;
    s = resource_release(allocator_resource_handle(a));
    VF_ASSERT(s == STATUS_SUCCESS, "release succeeds");
    for (size_t i = 0; i < sizeof(buf); ++i)
        if (buf[i] != before[i]) VF_ASSERT(i >= base && i < base + rs, "release writes inside the region only");
    VF_REACH("end");
}
