/* A caller-defined transport under a psock made by psock_create_from_user_methods:
 * a stream of bytes to read, a log of bytes written, and every split, end of
 * stream or error decided symbolically. */
#pragma once
#include "../vf.h"
#include "../vf_alloc.h"
#include <rcpr/psock.h>
#include <string.h>
RCPR_IMPORT_psock;
#ifndef XCAP
#define XCAP 96
#endif
#define XERR_READ 0x7101
#define XERR_WRITE 0x7102
typedef struct xport xport;
struct xport
{
    uint8_t in[XCAP]; size_t in_len, in_pos;
    uint8_t out[XCAP]; size_t out_len;
    /* may a read / write move fewer bytes than asked, fail, (read) would-block? */
    bool split_r, fail_r, block_r, split_w, fail_w, zero_w;
    bool failed, split;      /* what happened */
    unsigned reads, writes, released;
    unsigned last_block;
    size_t last_req;
};
/* so many transfers are split at most. */
#ifndef SPLITS
#define SPLITS 1000
#endif
static unsigned xp_splits = SPLITS;
static size_t xp_upto(size_t n, bool split)
{
    if (!split || n < 2 || xp_splits == 0) return n;
    size_t k = n - vf_below((unsigned)n);   /* n, n-1, ... 1 */
    for (size_t i = 1; i < n; ++i) if (k == i) { --xp_splits; return i; }
    return n;
}
static status xp_read(RCPR_SYM(psock)* s, void* c, void* data, size_t* size, bool block)
{
    (void)s;
    xport* x = (xport*)c;
    ++x->reads;
    x->last_block = block;
    x->last_req = *size;
    if (x->fail_r && vf_bool()) { x->failed = true; *size = 0; return XERR_READ; }
    if (x->block_r && !block && vf_bool()) { *size = 0; return ERROR_PSOCK_READ_WOULD_BLOCK; }
    size_t n = x->in_len - x->in_pos;
    if (n > *size) n = *size;
    size_t k = xp_upto(n, x->split_r);
    if (k < *size) x->split = true;
    memcpy(data, x->in + x->in_pos, k);
    x->in_pos += k;
    *size = k;
    return STATUS_SUCCESS;
}
static status xp_write(RCPR_SYM(psock)* s, void* c, const void* data, size_t* size)
{
    (void)s;
    xport* x = (xport*)c;
    ++x->writes;
    if (x->fail_w && vf_bool()) { x->failed = true; return XERR_WRITE; }
    size_t n = *size;
    VF_ASSERT(n <= XCAP - x->out_len, "no more is written than was asked for");
    size_t k = (x->zero_w && vf_bool()) ? 0 : xp_upto(n, x->split_w);
    if (k < n) x->split = true;
    memcpy(x->out + x->out_len, data, k);
    x->out_len += k;
    *size = k;
    return STATUS_SUCCESS;
}
static status xp_release(RCPR_SYM(psock)* s, void* c)
{
    (void)s;
    ++((xport*)c)->released;
    return STATUS_SUCCESS;
}
static RCPR_SYM(psock_vtable) xp_vtable = {
    .hdr = { NULL }, .read_fn = &xp_read, .write_fn = &xp_write, .release_fn = &xp_release };
static RCPR_SYM(psock)* xp_open(xport* x)
{
    bool f = vf_may_fail;
    vf_may_fail = false;
    RCPR_SYM(psock)* s = NULL;
    VF_ASSERT(RCPR_SYM(psock_create_from_user_methods)(&s, vf_allocator_get(), x, &xp_vtable) == STATUS_SUCCESS, "the psock is made");
    vf_may_fail = f;
    return s;
}
static void xp_close(RCPR_SYM(psock)* s, xport* x)
{
    unsigned was = x->released;
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the psock is released");
    VF_ASSERT(x->released == was + 1, "the transport is released once");
}
