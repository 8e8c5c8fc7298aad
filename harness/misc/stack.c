/* K01: every size over the full range, every failing step. */
#include "../vf_alloc.h"
#include "../vf_sys.h"
#include <string.h>
#include <rcpr/stack.h>
#include <sys/mman.h>
RCPR_IMPORT_stack;

static size_t want; static unsigned maps, unmaps; static char region[64];
static bool map_fails, unmap_fails;
void* vf_sys_mmap(void* p, size_t n, int pr, int fl, int fd, long off)
{
    VF_ASSERT(p == NULL && fd == -1 && off == 0, "an anonymous mapping is asked for");
    VF_ASSERT(n >= want, "at least the size asked for is mapped");
    VF_ASSERT((pr & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE), "the stack is readable and writable");
    VF_ASSERT((fl & (MAP_PRIVATE | MAP_ANONYMOUS)) == (MAP_PRIVATE | MAP_ANONYMOUS), "the mapping is private and anonymous");
    want = n;
    if (map_fails) return MAP_FAILED;
    ++maps;
    return region;
}
int vf_sys_munmap(void* p, size_t n)
{
    VF_ASSERT(p == (void*)region && n == want, "the region is unmapped with the address and length it was mapped with");
    if (unmap_fails) return -1;
    ++unmaps;
    VF_ASSERT(unmaps <= maps, "the region is unmapped once");
    return 0;
}
void vf_main(void)
{
    static char junk;
    stack* st = NULL;
#ifdef NULLOUT
    st = (stack*)&junk;     /* whatever was there */
#endif
    (void)junk;
    size_t size = want = vf_size();
    map_fails = vf_bool();
    vf_may_fail = true;
    status s = stack_create(&st, vf_allocator_get(), size);
    if (vf_failures || map_fails)
    {
        VF_ASSERT(s != STATUS_SUCCESS, "a failure is reported");
        VF_ASSERT(vf_live == 0 && maps == 0 && st == NULL, "a failed creation leaks and publishes nothing");
        if (map_fails && !vf_failures) VF_REACH("map failed"); else VF_REACH("allocation failed");
        return;
    }
    VF_ASSERT(s == STATUS_SUCCESS && maps == 1 && vf_live == 1, "creation maps one region");
    unmap_fails = vf_bool();
    s = resource_release(stack_resource_handle(st));
    if (unmap_fails)
    {
        VF_ASSERT(s == ERROR_STACK_UNMAP, "a failing unmap is reported");
        VF_REACH("unmap failed");
    }
    else
    {
        VF_ASSERT(s == STATUS_SUCCESS && unmaps == 1 && vf_live == 0, "release unmaps the region once and reclaims the record");
        VF_REACH("released");
    }
}
