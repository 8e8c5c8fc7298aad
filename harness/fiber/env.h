/* What the scheduler needs from the operating system: stacks. */
#pragma once
#include "../vf.h"
#include "../vf_sys.h"
#include "../vf_alloc.h"
#include <string.h>
#include <sys/mman.h>
#include <rcpr/fiber.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_fiber;
RCPR_IMPORT_uuid;
#ifndef MAXMAP
#define MAXMAP 8
#endif
/* the instrumented native build needs more stack than the library's own. */
#if defined(VF_SYMX)
#define BELOW 0
#else
#define BELOW 65536
#endif
static int maps_live;
static size_t map_len[MAXMAP]; static char* map_at[MAXMAP];
void* vf_sys_mmap(void* p, size_t n, int pr, int fl, int fd, long off)
{
    (void)p; (void)pr; (void)fl; (void)fd; (void)off;
    for (int i = 0; i < MAXMAP; ++i) if (!map_at[i])
    {
        map_at[i] = malloc(n + BELOW);
        VF_ASSUME(map_at[i] != NULL);
        map_at[i] += BELOW;
        map_len[i] = n;
        ++maps_live;
        return map_at[i];
    }
    VF_ASSERT(0, "harness: enough mappings");
    return MAP_FAILED;
}
int vf_sys_munmap(void* p, size_t n)
{
    for (int i = 0; i < MAXMAP; ++i) if (p == map_at[i])
    {
        VF_ASSERT(map_len[i] == n, "a stack is unmapped with its length");
        map_at[i] = NULL;
        free((char*)p - BELOW);
        --maps_live;
        return 0;
    }
    VF_ASSERT(0, "only a live stack is unmapped");
    return -1;
}
static fiber_scheduler* sched;
static fiber* main_fib;
static void sched_make(void)
{
#ifdef FAR
    vf_far = true;
#endif
    VF_ASSERT(fiber_scheduler_create_with_disciplines(&sched, vf_allocator_get()) == STATUS_SUCCESS, "the scheduler is made");
    VF_ASSERT(disciplined_fiber_scheduler_main_fiber_get(&main_fib, sched) == STATUS_SUCCESS, "the main fiber is known");
}
/* everything the scheduler owns goes with it. */
static void sched_drop(void)
{
    VF_ASSERT(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "the scheduler is released");
    VF_ASSERT(maps_live == 0, "every stack is unmapped");
    VF_ASSERT(vf_live == 0, "every block is reclaimed");
}
