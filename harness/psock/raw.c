/* P03: raw transfers.  MODE 0: raw data, any split, end or error.  MODE 1: raw
 * integers and booleans.  MODE 2: the single non-blocking raw read. */
#include "boxes.h"
static xport w, r;
static status put(RCPR_SYM(psock)* s, unsigned k, uint64_t n)
{
    switch (k)
    {
        case B_I64: return RCPR_SYM(psock_write_raw_int64)(s, (int64_t)n);
        case B_U64: return RCPR_SYM(psock_write_raw_uint64)(s, n);
        case B_I32: return RCPR_SYM(psock_write_raw_int32)(s, (int32_t)n);
        case B_U32: return RCPR_SYM(psock_write_raw_uint32)(s, (uint32_t)n);
        case B_I16: return RCPR_SYM(psock_write_raw_int16)(s, (int16_t)n);
        case B_U16: return RCPR_SYM(psock_write_raw_uint16)(s, (uint16_t)n);
        case B_I8: return RCPR_SYM(psock_write_raw_int8)(s, (int8_t)n);
        case B_U8: return RCPR_SYM(psock_write_raw_uint8)(s, (uint8_t)n);
        default: return RCPR_SYM(psock_write_raw_bool)(s, n != 0);
    }
}
static status get(RCPR_SYM(psock)* s, unsigned k, uint64_t* n)
{
    int64_t a = 0; uint64_t b = 0; int32_t c = 0; uint32_t d = 0; int16_t e = 0; uint16_t f = 0; int8_t g = 0; uint8_t h = 0; bool i = false;
    status st;
    switch (k)
    {
        case B_I64: st = RCPR_SYM(psock_read_raw_int64)(s, &a); *n = (uint64_t)a; break;
        case B_U64: st = RCPR_SYM(psock_read_raw_uint64)(s, &b); *n = b; break;
        case B_I32: st = RCPR_SYM(psock_read_raw_int32)(s, &c); *n = (uint32_t)c; break;
        case B_U32: st = RCPR_SYM(psock_read_raw_uint32)(s, &d); *n = d; break;
        case B_I16: st = RCPR_SYM(psock_read_raw_int16)(s, &e); *n = (uint16_t)e; break;
        case B_U16: st = RCPR_SYM(psock_read_raw_uint16)(s, &f); *n = f; break;
        case B_I8: st = RCPR_SYM(psock_read_raw_int8)(s, &g); *n = (uint8_t)g; break;
        case B_U8: st = RCPR_SYM(psock_read_raw_uint8)(s, &h); *n = h; break;
        default: st = RCPR_SYM(psock_read_raw_bool)(s, &i); *n = i; break;
    }
    return st;
}
static uint8_t src[XCAP];
static void data(void)
{
    size_t n = b_len(LEN + 1);
    for (size_t i = 0; i < LEN; ++i) src[i] = vf_u8();
    RCPR_SYM(psock)* s = xp_open(&w);
    w.split_w = w.fail_w = w.zero_w = true;
    status st = RCPR_SYM(psock_write_raw_data)(s, src, n);
    VF_ASSERT(w.out_len <= n && memcmp(w.out, src, w.out_len) == 0, "the bytes moved are a prefix of the data, once each");
    VF_ASSERT((st == STATUS_SUCCESS) == (w.out_len == n && !w.failed), "a write succeeds exactly when every byte moved");
    if (w.failed) VF_ASSERT(st == XERR_WRITE, "the transport's error is reported");
    xp_close(s, &w);
    if (st == STATUS_SUCCESS) VF_REACH("data written"); else VF_REACH("data write failed");
    if (st != STATUS_SUCCESS) { VF_ASSERT(vf_live == 0, "nothing leaks"); return; }
    size_t have = b_len(n + 1);
    memcpy(r.in, w.out, have);
    r.in_len = have;
    r.split_r = r.fail_r = r.block_r = true;
    s = xp_open(&r);
    vf_may_fail = true; vf_failures = 0;
    void* p = NULL;
    st = RCPR_SYM(psock_read_raw_data)(s, vf_allocator_get(), &p, n);
    vf_may_fail = false;
    VF_ASSERT((st == STATUS_SUCCESS) == (have == n && !r.failed && vf_failures == 0), "a read succeeds exactly when every byte arrived");
    if (r.failed) VF_ASSERT(st == XERR_READ, "the transport's error is reported");
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(p != NULL && memcmp(p, src, n) == 0, "the bytes read are the ones written");
        VF_ASSERT(r.in_pos == n, "no byte beyond them is consumed");
        VF_ASSERT(allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the block is the caller's");
        VF_REACH("data read");
    }
    else { VF_ASSERT(p == NULL, "a failed read gives nothing out"); if (have < n && !r.failed && vf_failures == 0) VF_REACH("end of stream"); }
    xp_close(s, &r);
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
static void ints(void)
{
    unsigned k = vf_below(B_STR);
    for (unsigned i = 0; i < B_STR; ++i) if (k == i) { k = i; break; }
    bval v;
    b_make(k, &v);
    uint8_t ref[16];
    size_t n = b_encode(k, &v, false, ref);
    RCPR_SYM(psock)* s = xp_open(&w);
    w.split_w = w.fail_w = w.zero_w = true;
    status st = put(s, k, v.n);
    VF_ASSERT(w.out_len <= n && memcmp(w.out, ref, w.out_len) == 0, "the bytes are the value's, most significant first");
    if (st == STATUS_SUCCESS) VF_ASSERT(w.out_len == n && !w.failed, "a write succeeds only when every byte moved");
    if (!w.failed && !w.split) VF_ASSERT(st == STATUS_SUCCESS, "a write the transport takes whole succeeds");
    if (w.failed) VF_ASSERT(st == XERR_WRITE, "the transport's error is reported");
    xp_close(s, &w);
    if (st == STATUS_SUCCESS) VF_REACH("written"); else VF_REACH("write failed");
    size_t have = b_len(n + 1);
    for (size_t i = 0; i < n; ++i) r.in[i] = vf_u8();
    r.in_len = have;
    r.split_r = r.fail_r = r.block_r = true;
    s = xp_open(&r);
    uint64_t g = 0, e = 0;
    for (size_t i = 0; i < n; ++i) e = (e << 8) | r.in[i];
    st = get(s, k, &g);
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(have == n && !r.failed, "a read succeeds only when every byte arrived");
        VF_ASSERT(g == (k == B_BOOL ? (uint64_t)(e != 0) : e), "the value read is the bytes', most significant first");
        VF_REACH("read");
    }
    else { VF_ASSERT(g == 0, "a failed read publishes nothing"); VF_REACH("read failed"); }
    if (!r.failed && !r.split && have == n) VF_ASSERT(st == STATUS_SUCCESS, "a read the transport serves whole succeeds");
    if (r.failed) VF_ASSERT(st == XERR_READ, "the transport's error is reported");
    xp_close(s, &r);
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
static void once(void)
{
    static uint8_t buf[LEN + 2];
    size_t n = 1 + b_len(LEN), have = b_len(LEN + 1);
    for (size_t i = 0; i < LEN; ++i) r.in[i] = vf_u8();
    for (size_t i = 0; i < LEN + 2; ++i) buf[i] = 0xc7;
    r.in_len = have;
    r.split_r = r.fail_r = r.block_r = true;
    RCPR_SYM(psock)* s = xp_open(&r);
    size_t sz = n;
    status st = RCPR_SYM(psock_read_raw)(s, buf, &sz);
    VF_ASSERT(r.reads == 1 && r.last_block == 0 && r.last_req == n, "one read that does not block is made");
    VF_ASSERT(r.in_pos <= n && memcmp(buf, r.in, r.in_pos) == 0, "the bytes are delivered in order");
    for (size_t i = r.in_pos; i < LEN + 2; ++i) VF_ASSERT(buf[i] == 0xc7, "nothing beyond the bytes read is written");
    if (r.failed) { VF_ASSERT(st == XERR_READ, "the transport's error is reported"); VF_REACH("raw failed"); }
    else if (st == STATUS_SUCCESS) { VF_ASSERT(sz == r.in_pos, "the size is the number of bytes read"); VF_REACH("raw read"); }
    else { VF_ASSERT(st == ERROR_PSOCK_READ_WOULD_BLOCK && sz == 0 && r.in_pos == 0, "a read that would block says so, with no bytes"); VF_REACH("raw would block"); }
    xp_close(s, &r);
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
void vf_main(void) { if (MODE == 0) data(); else if (MODE == 1) ints(); else once(); }
