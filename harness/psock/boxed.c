/* P01: two boxed values of any kind, written through a transport that may
 * split any transfer or fail, then read back through one that may too. */
#include "boxes.h"
static xport w, r;
void vf_main(void)
{
    unsigned k[2]; bval v[2]; uint8_t ref[2][16 + PAY]; size_t n[2];
    const unsigned N = COUNT;
    RCPR_SYM(psock)* s = xp_open(&w);
    w.split_w = SPLIT & 1; w.fail_w = SPLIT & 1; w.zero_w = SPLIT & 1;
    for (unsigned i = 0; i < N; ++i)
    {
        k[i] = b_pick();
        b_make(k[i], &v[i]);
        n[i] = b_encode(k[i], &v[i], true, ref[i]);
        size_t at = w.out_len;
        w.failed = w.split = false;
        status st = b_write(s, k[i], &v[i]);
        if (!w.failed && !w.split) VF_ASSERT(st == STATUS_SUCCESS, "a write the transport takes whole succeeds");
        if (st != STATUS_SUCCESS) { VF_REACH("write failed"); xp_close(s, &w); VF_ASSERT(vf_live == 0, "nothing leaks"); return; }
        VF_ASSERT(w.out_len == at + n[i], "the encoding has the documented size");
        VF_ASSERT(memcmp(w.out + at, ref[i], n[i]) == 0, "the bytes are the tag and the value, most significant first");
    }
    xp_close(s, &w);
    VF_REACH("written");
    memcpy(r.in, w.out, w.out_len);
    r.in_len = w.out_len;
    r.split_r = (SPLIT & 2) != 0; r.fail_r = (SPLIT & 2) != 0; r.block_r = true;
    s = xp_open(&r);
    for (unsigned i = 0; i < N; ++i)
    {
        bval g; void* blk; bool pub;
        r.failed = r.split = false;
        size_t at = r.in_pos;
        status st = b_read(s, k[i], &g, &blk, &pub);
        if (!r.failed && !r.split) VF_ASSERT(st == STATUS_SUCCESS, "a read the transport serves whole succeeds");
        if (st != STATUS_SUCCESS) { VF_REACH("read failed"); break; }
        VF_ASSERT(r.in_pos == at + n[i], "exactly the value's bytes are consumed");
        VF_ASSERT(g.n == v[i].n && g.len == v[i].len, "the value read equals the value written");
        if (blk != NULL)
        {
            VF_ASSERT(memcmp(blk, v[i].p, v[i].len) == 0, "the payload read equals the payload written");
            if (k[i] == B_STR) VF_ASSERT(((char*)blk)[v[i].len] == 0, "the string read is terminated");
            VF_ASSERT(allocator_reclaim(vf_allocator_get(), blk) == STATUS_SUCCESS, "the block is the caller's");
            VF_REACH("payload");
        }
        if (i == N - 1) { VF_ASSERT(r.in_pos == r.in_len, "nothing is left over"); VF_REACH("read back"); }
    }
    xp_close(s, &r);
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
