/* P04/P05: a buffered reader over a transport that splits, would-blocks and
 * ends anywhere.  LINES=1: only line reads (P05); else any mixture (P04). */
#ifndef CAP
#define CAP 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef FAIL
#define FAIL 0
#endif
#define XCAP (PRE + LEN + 8)
#include "xport.h"
#include "step.h"
static xport x;
static RCPR_SYM(psock_br)* br;
static RCPR_SYM(psock)* ad;
static size_t pos;        /* bytes delivered so far */
static bool ended;        /* an exact read failed: its bytes are gone */
static size_t total;
static bool fail;
#define ASKS "a read that the buffered bytes satisfy asks the socket for nothing"
static void same(const uint8_t* b, size_t n)
{
    VF_ASSERT(n <= x.in_pos - pos, "nothing is delivered that was not received");
    VF_ASSERT(memcmp(b, x.in + pos, n) == 0, "the bytes are delivered unchanged and in order");
    pos += n;
}
static void some(size_t n)
{
    static uint8_t buf[PRE + LEN + 8];
    memset(buf, 0xc7, sizeof buf);
    size_t sz = n, had = x.in_pos - pos; unsigned reads = x.reads;
    x.fail_r = fail; x.failed = false;
    status st = RCPR_SYM(psock_read_raw)(ad, buf, &sz);
    x.fail_r = false;
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(sz > 0 && sz <= n, "a partial read moves between one byte and those asked for");
        if (had >= n) VF_ASSERT(x.reads == reads, ASKS);
        same(buf, sz);
        VF_ASSERT(buf[sz] == 0xc7, "nothing is written beyond");
        VF_REACH("partial");
    }
    else
    {
        VF_ASSERT(had == 0, "buffered bytes are delivered before an error or the end is reported");
        if (x.failed) { VF_ASSERT(st == XERR_READ, "the transport's error is reported"); VF_REACH("error"); }
        else if (x.in_pos < x.in_len) VF_REACH("would block"); else VF_REACH("end of stream");
    }
}
static void exact(size_t n)
{
    void* p = NULL;
    size_t had = x.in_pos - pos; unsigned reads = x.reads;
    x.fail_r = fail; x.failed = false;
    status st = RCPR_SYM(psock_read_raw_data)(ad, vf_allocator_get(), &p, n);
    x.fail_r = false;
    if (st == STATUS_SUCCESS)
    {
        if (had >= n) VF_ASSERT(x.reads == reads, ASKS);
        same(p, n);
        VF_ASSERT(allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the block is the caller's");
        VF_REACH("exact");
    }
    else
    {
        VF_ASSERT(x.block_r || x.failed || total - pos < n, "an exact read of bytes the stream has succeeds");
        ended = true;
        VF_REACH("exact failed");
    }
}
static bool line(size_t cap)
{
    uint8_t* buf = malloc(cap);
    VF_ASSUME(buf != NULL);
    size_t sz = cap, had = x.in_pos - pos; unsigned reads = x.reads;
    /* the reference line. */
    size_t n = 0;
    while (pos + n < total && x.in[pos + n] != '\n') ++n;
    bool nl = pos + n < total, ready = had > (n < cap ? n : cap - 1);
    status st = RCPR_SYM(psock_br_read_line)(buf, &sz, br);
    bool cont = true;
    if (ready) VF_ASSERT(x.reads == reads, ASKS);
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(sz >= 1 && sz <= cap, "the size is that of the line and its terminator");
        VF_ASSERT(n + 1 <= cap && sz == n + 1, "a line is read up to its newline");
        same(buf, sz - 1);
        VF_ASSERT(buf[sz - 1] == 0, "the line is terminated");
        if (nl) { ++pos; VF_ASSERT(pos <= x.in_pos, "the newline was received"); VF_REACH("line"); }
        else { VF_ASSERT(n > 0 && pos == x.in_len, "only the end of the stream ends a line without a newline"); VF_REACH("last line"); }
    }
    else if (st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED)
    {
        if (!x.block_r) VF_ASSERT(n >= cap, "only a line too long for the buffer is truncated");
        if (n < cap) { VF_REACH("interrupted"); }
        else VF_REACH("truncated");
        VF_ASSERT(sz < cap && (x.block_r || sz == cap - 1), "the size is that of the part read");
        size_t m = sz;
        VF_ASSERT(buf[m] == 0, "the part is terminated");
        same(buf, m);
    }
    else if (st == ERROR_PSOCK_READ_WOULD_BLOCK)
    {
        VF_ASSERT(x.block_r && sz == cap, "only a transport that would block makes a line read say so");
        VF_REACH("line would block");
    }
    else
    {
        VF_ASSERT(pos == total && x.in_pos == x.in_len, "the end is reported only once every byte was delivered");
        VF_ASSERT(sz == cap, "a failure leaves the size unchanged");
        VF_REACH("no more lines");
        cont = false;
    }
    free(buf);
    return cont;
}
void vf_main(void)
{
    for (size_t i = 0; i < PRE; ++i) x.in[i] = (uint8_t)('a' + i % 23);
    size_t len = step_len(LEN + 1);
    for (size_t i = 0; i < len; ++i) x.in[PRE + i] = vf_u8();
    if (LINES) for (size_t i = 0; i < len; ++i) { if (vf_bool()) VF_ASSUME(x.in[PRE + i] == '\n'); else VF_ASSUME(x.in[PRE + i] != '\n'); }
    x.in_len = PRE + len;
    total = x.in_len;
    RCPR_SYM(psock)* s = xp_open(&x);
    VF_ASSERT(RCPR_SYM(psock_br_create_from_psock)(&br, vf_allocator_get(), s) == STATUS_SUCCESS, "the reader is made");
    ad = RCPR_SYM(psock_br_psock_adapter)(br);
    if (PRE > 0) exact(PRE);
    x.split_r = true;
    x.block_r = BLOCK;
    fail = FAIL;
    if (LINES)
    {
        size_t cap = 2 + step_len(CAP - 1);
        for (unsigned i = 0; i < 2 * LEN + 3 && line(cap); ++i) {}
        VF_ASSERT(pos == total || x.block_r, "every byte is delivered");
    }
    else
        for (unsigned i = 0; i < STEPS && !ended; ++i)
            switch (vf_below(3))
            {
                case 0: some(1 + step_len(3)); break;
                case 1: exact(1 + step_len(3)); break;
                default: line(2 + step_len(3)); break;
            }
    if (!ended && !LINES)
    {
        fail = false; x.block_r = false; x.split_r = false;
        for (unsigned i = 0; i < 3; ++i) some(PRE + LEN + 4);
        VF_ASSERT(pos == x.in_pos, "no byte received is lost");
        VF_REACH("drained");
    }
    VF_ASSERT(resource_release(RCPR_SYM(psock_br_resource_handle)(br)) == STATUS_SUCCESS, "the reader is released");
    VF_ASSERT(x.released == 0, "the wrapped socket stays the caller's");
    xp_close(s, &x);
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
