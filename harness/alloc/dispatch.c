/* Allocator calls reach the backend once, with the same arguments and result. */
#include "../vf.h"
#include <rcpr/allocator.h>
#include <rcpr/resource/protected.h>
#include <rcpr/vtable.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;

static unsigned n_alloc, n_reclaim, n_realloc, n_control, n_release;
static allocator* seen_a; static void* seen_p; static void** seen_pp; static size_t seen_n; static int seen_k; static void* seen_v;
static status give; static void* give_p;

static status my_release(resource* r) { ++n_release; seen_a = (allocator*)r; return give; }
static status my_allocate(RCPR_SYM(allocator)* a, void** p, size_t n)
{ ++n_alloc; seen_a = a; seen_n = n; *p = give_p; return give; }
static status my_reclaim(RCPR_SYM(allocator)* a, void* p) { ++n_reclaim; seen_a = a; seen_p = p; return give; }
static status my_reallocate(RCPR_SYM(allocator)* a, void** p, size_t n)
{ ++n_realloc; seen_a = a; seen_p = *p; seen_pp = p; seen_n = n; *p = give_p; return give; }
static status my_control(RCPR_SYM(allocator)* a, int k, void* v, size_t n)
{ ++n_control; seen_a = a; seen_k = k; seen_v = v; seen_n = n; return give; }

RCPR_VTABLE RCPR_SYM(allocator_vtable) my_vt = {
    .hdr = { &my_release }, .allocate_fn = &my_allocate, .reclaim_fn = &my_reclaim,
    .reallocate_fn = &my_reallocate, .control_fn = &my_control };
RCPR_VTABLE RCPR_SYM(allocator_vtable) my_vt_nocontrol = {
    .hdr = { &my_release }, .allocate_fn = &my_allocate, .reclaim_fn = &my_reclaim,
    .reallocate_fn = &my_reallocate, .control_fn = NULL };
static struct { RCPR_SYM(resource) hdr; void* room[4]; } obj[2];

void vf_main(void)
{
    unsigned vt = vf_below(2), op = vf_below(4);
    resource_init(&obj[0].hdr, vt == 0 ? &my_vt.hdr : &my_vt_nocontrol.hdr);
    resource_init(&obj[1].hdr, &my_vt.hdr);
    allocator* a = (allocator*)&obj[0];
    static char block[4];
    give = (status)vf_u32();
    give_p = vf_bool() ? (void*)&block[1] : NULL;
    void* p = &block[2];
    size_t n = vf_size();
    int k = vf_i32();
    status s;
    switch (op)
    {
        case 0: s = allocator_allocate(a, &p, n); break;
        case 1: s = allocator_reclaim(a, p); break;
        case 2: s = allocator_reallocate(a, &p, n); break;
        default: s = allocator_control(a, k, &block[3], n); break;
    }
    unsigned total = n_alloc + n_reclaim + n_realloc + n_control + n_release;
    if (vt == 1 && op == 3)
    {
        VF_ASSERT(total == 0 && s == ERROR_GENERAL_CONTROL_KEY_INVALID, "an allocator without controls refuses every key");
        VF_REACH("no control");
        return;
    }
    VF_ASSERT(total == 1, "exactly one backend call is made");
    VF_ASSERT(s == give, "the backend's status is returned");
    VF_ASSERT(seen_a == a, "the backend is called on the very allocator");
    switch (op)
    {
        case 0:
            VF_ASSERT(n_alloc == 1 && seen_n == n && p == give_p, "allocate passes the size and gives back the pointer");
            VF_REACH("allocate");
            break;
        case 1:
            VF_ASSERT(n_reclaim == 1 && seen_p == &block[2], "reclaim passes the pointer");
            VF_REACH("reclaim");
            break;
        case 2:
            VF_ASSERT(n_realloc == 1 && seen_n == n && seen_p == &block[2] && p == give_p, "reallocate passes pointer and size and gives back the pointer");
            VF_REACH("reallocate");
            break;
        default:
            VF_ASSERT(n_control == 1 && seen_k == k && seen_v == &block[3] && seen_n == n, "control passes key, value and size");
            VF_REACH("control");
            break;
    }
    VF_ASSERT(allocator_resource_handle(a) == &obj[0].hdr, "the resource handle is the allocator itself");
    total = n_release;
    s = resource_release(allocator_resource_handle(a));
    VF_ASSERT(n_release == total + 1 && s == give, "releasing reaches the allocator's release method once");
}
