/* A caller-supplied rcpr allocator: every allocation may fail (symbolically),
 * every live block is counted. */
#pragma once
#include "vf.h"
#include <rcpr/allocator.h>
#include <rcpr/resource/protected.h>
#include <rcpr/vtable.h>
#include <stdlib.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;

/* live blocks handed out and not reclaimed. */
extern unsigned vf_live, vf_live2;
/* number of allocation attempts, and of injected failures. */
extern unsigned vf_attempts, vf_failures;
/* may allocations fail from now on?  at most vf_max_failures times. */
extern bool vf_may_fail;
extern unsigned vf_max_failures;
/* may a reclaim be answered with an error?  how many were. */
extern bool vf_reclaim_may_fail;
extern unsigned vf_reclaim_failures;
#define VF_RECLAIM_FAIL 0x7ffd
/* larger requests always fail (counted as a failure). */
extern size_t vf_max_block;
/* the last request's size. */
extern size_t vf_last_request;

/* a block given back is handed out again for the next request of its size. */
extern bool vf_reuse;
/* blocks are 2^32 bytes apart. */
extern bool vf_far;

RCPR_SYM(allocator)* vf_allocator_get(void);
/* a second one, counting in vf_live2. */
RCPR_SYM(allocator)* vf_allocator_get2(void);
