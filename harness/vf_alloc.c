#include "vf_alloc.h"
#include <string.h>
#include <stddef.h>

unsigned vf_live, vf_live2, vf_attempts, vf_failures, vf_max_failures = 1000;
bool vf_may_fail, vf_reclaim_may_fail;
unsigned vf_reclaim_failures;
size_t vf_max_block = (size_t)-1, vf_last_request;

struct vf_alloc_object
{
    RCPR_SYM(resource) hdr;
    unsigned* live;
};

#define LIVE(a) (*((struct vf_alloc_object*)(a))->live)

static bool inject(void)
{
    ++vf_attempts;
    if (!vf_may_fail || vf_failures >= vf_max_failures) return false;
    if (vf_bool()) { ++vf_failures; return true; }
    return false;
}

/* with vf_reuse, a block given back is the next one handed out for its size;
 * with vf_far, blocks are 2^32 bytes apart. */
bool vf_reuse, vf_far;
enum { MAX_FREE = 64 };
static struct block { size_t size; void* pad; char data[]; } *unused[MAX_FREE];
static int n_unused;
static unsigned n_far;
static struct block* header(void* p) { return (struct block*)((char*)p - offsetof(struct block, data)); }
static void* take(size_t size)
{
    if (!vf_reuse && !vf_far) return malloc(size);
    for (int i = n_unused - 1; i >= 0; --i) if (unused[i]->size == size)
    {
        struct block* b = unused[i];
        for (--n_unused; i < n_unused; ++i) unused[i] = unused[i + 1];
        return b->data;
    }
    struct block* b = vf_far ? vf_sym_far(sizeof *b + size, n_far++) : malloc(sizeof *b + size);
    VF_ASSUME(b != NULL);
    b->size = size;
    return b->data;
}
static void give(void* p)
{
    if (!vf_reuse && !vf_far) { free(p); return; }
    struct block* b = header(p);
    memset(p, 0xA5, b->size);
    if (vf_reuse) { if (n_unused < MAX_FREE) unused[n_unused++] = b; }
#ifdef VF_SYMX
    else free(b);
#endif
}

static status va_allocate(RCPR_SYM(allocator)* a, void** ptr, size_t size)
{
    vf_last_request = size;
    if (size > vf_max_block) { ++vf_attempts; ++vf_failures; *ptr = NULL; return ERROR_GENERAL_OUT_OF_MEMORY; }
    if (inject()) { *ptr = NULL; return ERROR_GENERAL_OUT_OF_MEMORY; }
    *ptr = take(size);
    VF_ASSUME(*ptr != NULL);
    ++LIVE(a);
    return STATUS_SUCCESS;
}

static status va_reclaim(RCPR_SYM(allocator)* a, void* ptr)
{
    VF_ASSERT(ptr != NULL, "only a block that was allocated is reclaimed");
    VF_ASSERT(LIVE(a) > 0, "no more blocks are reclaimed than were allocated");
    --LIVE(a);
    give(ptr);
    /* a refusal is only an answer: the block is gone for the caller. */
    if (vf_reclaim_may_fail && vf_bool()) { ++vf_reclaim_failures; return VF_RECLAIM_FAIL; }
    return STATUS_SUCCESS;
}

static status va_reallocate(RCPR_SYM(allocator)* a, void** ptr, size_t size)
{
    if (inject()) return ERROR_GENERAL_OUT_OF_MEMORY;
    void* n;
    if (vf_reuse || vf_far)
    {
        n = take(size);
        if (*ptr)
        {
            size_t old = header(*ptr)->size;
            memcpy(n, *ptr, old < size ? old : size);
            give(*ptr);
        }
    }
    else n = realloc(*ptr, size);
    VF_ASSUME(n != NULL);
    if (*ptr == NULL) ++LIVE(a);
    *ptr = n;
    return STATUS_SUCCESS;
}

RCPR_VTABLE RCPR_SYM(allocator_vtable) vf_allocator_vtable = {
    .hdr = { NULL },
    .allocate_fn = &va_allocate,
    .reclaim_fn = &va_reclaim,
    .reallocate_fn = &va_reallocate,
    .control_fn = NULL };

static struct vf_alloc_object vf_the_allocator = {
    .hdr = { .vtable = &vf_allocator_vtable.hdr }, .live = &vf_live };
static struct vf_alloc_object vf_other_allocator = {
    .hdr = { .vtable = &vf_allocator_vtable.hdr }, .live = &vf_live2 };

RCPR_SYM(allocator)* vf_allocator_get(void)
{
    return (RCPR_SYM(allocator)*)&vf_the_allocator;
}

RCPR_SYM(allocator)* vf_allocator_get2(void)
{
    return (RCPR_SYM(allocator)*)&vf_other_allocator;
}
