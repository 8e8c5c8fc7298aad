/* The malloc allocator on a C heap that may fail any request. */
#include "../vf.h"
#include <rcpr/allocator.h>
#include <rcpr/resource/protected.h>
#include <stdlib.h>
#include <string.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;

#ifndef MAXSZ
#define MAXSZ 12
#endif
#ifndef STEPS
#define STEPS 3
#endif

static unsigned heap_live, n_malloc, n_free, n_realloc, fails;
static size_t asked; static bool created;

/* big requests only ever fail: the harness cannot back them. */
static bool large(size_t n) { return n == 255 || n == 4096 || n == 65536 || n == 1048576 + 1; }
static bool refuse(size_t n) { asked = n; bool f = n > MAXSZ && !large(n) && created ? true : vf_bool(); if (f) ++fails; return f; }
void* vf_sys_malloc(size_t n)
{
    ++n_malloc;
    if (refuse(n)) return NULL;
    void* p = malloc(n ? n : 1);
    VF_ASSUME(p != NULL);
    ++heap_live;
    return p;
}
void* vf_sys_calloc(size_t m, size_t n)
{
    size_t t;
    if (__builtin_mul_overflow(m, n, &t)) return NULL;
    void* p = vf_sys_malloc(t);
    if (p) memset(p, 0, t);
    return p;
}
void vf_sys_free(void* p) { ++n_free; if (p) { VF_ASSERT(heap_live > 0, "nothing is freed twice"); --heap_live; } free(p); }
void* vf_sys_realloc(void* p, size_t n)
{
    ++n_realloc;
    if (refuse(n)) return NULL;
    void* q = realloc(p, n ? n : 1);
    VF_ASSUME(q != NULL);
    if (!p) ++heap_live;
    return q;
}

void vf_main(void)
{
    allocator* a = (allocator*)&heap_live;
    status s = malloc_allocator_create(&a);
    created = true;
    if (fails)
    {
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && a == NULL && heap_live == 0, "creation fails cleanly");
        VF_REACH("create failed");
        return;
    }
    VF_ASSERT(s == STATUS_SUCCESS && heap_live == 1, "creation draws one block");
    uint8_t* p = NULL; size_t n = 0;
    uint8_t model[MAXSZ];
    bool have = false;
    unsigned base = heap_live;
    for (unsigned i = 0; i < STEPS; ++i)
    {
        unsigned f0 = fails, m0 = n_malloc, r0 = n_realloc, fr0 = n_free;
        if (!have)
        {
            size_t want = vf_size();
            VF_ASSUME(want >= 1);
            void* q = &i;
            s = allocator_allocate(a, &q, want);
            if (n_malloc != m0) VF_ASSERT(asked == want, "the block is asked for in the requested size");
            if (fails != f0)
            {
                VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && q == NULL, "a failed request is out of memory with no pointer");
                VF_ASSERT(heap_live == base, "nothing is kept");
                VF_REACH("allocate failed");
                continue;
            }
            VF_ASSERT(s == STATUS_SUCCESS && n_malloc == m0 + 1 && heap_live == base + 1, "one block comes from the heap");
            VF_ASSERT(asked == want, "the block is asked for in the requested size");
            p = q; n = want; have = true;
            for (size_t k = 0; k < MAXSZ; ++k) if (k < n) { model[k] = vf_u8(); p[k] = model[k]; }
        }
        else if (vf_bool())
        {
            size_t want = vf_size();
            VF_ASSUME(want >= 1);
            void* q = p;
            s = allocator_reallocate(a, &q, want);
            VF_ASSERT(asked == want, "the new size is asked for");
            if (fails != f0)
            {
                VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY && q == p, "a failed reallocation leaves the pointer");
                VF_REACH("reallocate failed");
            }
            else
            {
                VF_ASSERT(s == STATUS_SUCCESS, "reallocation succeeds");
                p = q;
                if (want < n) n = want;
                VF_REACH("reallocated");
            }
            VF_ASSERT(heap_live == base + 1, "reallocation keeps one block");
            for (size_t k = 0; k < MAXSZ; ++k) if (k < n) VF_ASSERT(p[k] == model[k], "contents are kept");
            if (s == STATUS_SUCCESS)
                for (size_t k = 0; k < MAXSZ; ++k) if (k >= n && k < want) { model[k] = vf_u8(); p[k] = model[k]; }
            if (s == STATUS_SUCCESS) n = want;
        }
        else
        {
            s = allocator_reclaim(a, p);
            VF_ASSERT(s == STATUS_SUCCESS && n_free == fr0 + 1 && heap_live == base, "reclaim returns the block to the heap");
            have = false;
            VF_REACH("reclaimed");
        }
    }
    VF_ASSERT(allocator_control(a, vf_i32(), &heap_live, sizeof(heap_live)) == ERROR_GENERAL_CONTROL_KEY_INVALID, "no control key is supported");
    if (have) VF_ASSERT(allocator_reclaim(a, p) == STATUS_SUCCESS, "reclaim succeeds");
    VF_ASSERT(resource_release(allocator_resource_handle(a)) == STATUS_SUCCESS, "release succeeds");
    VF_ASSERT(heap_live == 0, "release returns the allocator's own block");
    VF_REACH("end");
}
