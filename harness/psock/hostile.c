/* P02: every boxed reader on an arbitrary byte stream that may end or fail
 * anywhere, with allocations failing at will. */
#include "boxes.h"
static xport r;
#ifndef TAGGED
#define TAGGED 0
#endif
void vf_main(void)
{
    unsigned k = b_pick();
    size_t len = b_len(LEN + 1);
    for (size_t i = 0; i < len; ++i) r.in[i] = vf_u8();
    if (TAGGED) for (size_t i = 0; i < 4; ++i) VF_ASSUME(len < 4 || r.in[i] == (i == 3 ? b_tag[k] : 0));
    r.in_len = len;
    r.fail_r = r.block_r = true; r.split_r = SPLIT;
    RCPR_SYM(psock)* s = xp_open(&r);
    vf_may_fail = true;
    vf_max_block = LEN + 4;
    bval g; void* blk; bool pub;
    vf_failures = 0;
    status st = b_read(s, k, &g, &blk, &pub);
    vf_may_fail = false;
    /* the reference decoding. */
    bool tag = len >= 4 && r.in[0] == 0 && r.in[1] == 0 && r.in[2] == 0 && r.in[3] == b_tag[k];
    uint64_t n = 0;
    bool whole = len >= 4u + b_width[k];
    if (whole) for (unsigned i = 0; i < b_width[k]; ++i) n = (n << 8) | r.in[4 + i];
    bool var = k == B_STR || k == B_DATA;
    if (var && whole) whole = n <= len - 8;
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(tag && whole, "only a complete encoding of that type is accepted");
        VF_ASSERT(!r.failed && vf_failures == 0, "no failure is swallowed");
        VF_ASSERT(k == B_BOOL ? g.n == (n != 0) : g.n == n, "the value is the encoded one");
        if (var)
        {
            VF_ASSERT(blk != NULL && g.len == n, "the payload is given out with its size");
            VF_ASSERT(memcmp(blk, r.in + 8, g.len) == 0, "the payload is the encoded one");
            if (k == B_STR) VF_ASSERT(((char*)blk)[g.len] == 0, "the string is terminated");
            VF_ASSERT(allocator_reclaim(vf_allocator_get(), blk) == STATUS_SUCCESS, "the block is the caller's");
            VF_REACH("payload");
        }
        VF_ASSERT(r.in_pos == 4 + (var ? 4 + n : b_width[k]), "exactly the encoding is consumed");
        VF_REACH("accepted");
    }
    else
    {
        VF_ASSERT(!pub, "a failed read publishes no value");
        if (!r.failed && !r.split && vf_failures == 0)
        {
            VF_ASSERT(!(tag && whole) || (k == B_STR && n == UINT32_MAX), "a complete encoding is accepted");
            VF_REACH("malformed");
        }
        if (len >= 4 && !tag && !r.failed && !r.split)
        {
            VF_ASSERT(st == ERROR_PSOCK_READ_BOXED_INVALID_TYPE, "a wrong tag is an unexpected type");
            VF_REACH("wrong type");
        }
        if (r.failed) { VF_ASSERT(st == XERR_READ, "the transport's error is reported"); VF_REACH("transport failed"); }
        if (vf_failures > 0) { VF_ASSERT(st == ERROR_GENERAL_OUT_OF_MEMORY, "out of memory is reported"); VF_REACH("out of memory"); }
    }
    xp_close(s, &r);
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
