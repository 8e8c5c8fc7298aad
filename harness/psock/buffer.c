/* P06: sockets over memory.  MODE 0: reading a string back.  MODE 1: collecting
 * output across growth and failures.  MODE 2: boxed values through both. */
#include "boxes.h"
#include "step.h"
#define BS 4096
#ifndef PRE
#define PRE 0
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifndef LEN
#define LEN 1
#endif
#ifndef STEPS
#define STEPS 1
#endif
static uint8_t ref[3 * BS];
static size_t nref;
static uint8_t in[LEN + 1];
static void input(void)
{
    size_t n = step_len(LEN + 1), pos = 0;
    uint8_t given[LEN + 1];
    for (size_t i = 0; i < n; ++i) given[i] = in[i] = vf_u8();
    RCPR_SYM(psock)* s = NULL;
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, vf_allocator_get(), (const char*)given, n) == STATUS_SUCCESS, "the socket is made");
    memset(given, 0xee, sizeof given); /* the contents were copied */
    for (unsigned i = 0; i < STEPS; ++i)
    {
        size_t left = n - pos;
        if (vf_bool())
        {
            uint8_t b[8];
            memset(b, 0xc7, sizeof b);
            size_t ask = 1 + step_len(5), sz = ask;
            status st = RCPR_SYM(psock_read_raw)(s, b, &sz);
            if (left == 0) { VF_ASSERT(st == ERROR_PSOCK_READ_EOF, "after the last byte comes the end of the stream"); VF_REACH("end of stream"); break; }
            VF_ASSERT(st == STATUS_SUCCESS && sz == (ask < left ? ask : left), "as many bytes as are left are read");
            VF_ASSERT(memcmp(b, in + pos, sz) == 0 && b[sz] == 0xc7, "the bytes are the string's, in order");
            pos += sz;
            VF_REACH("partial");
        }
        else
        {
            void* p = NULL;
            size_t ask = step_len(4);
            status st = RCPR_SYM(psock_read_raw_data)(s, vf_allocator_get(), &p, ask);
            VF_ASSERT((st == STATUS_SUCCESS) == (ask <= left), "an exact read succeeds exactly when the string has the bytes");
            if (st != STATUS_SUCCESS) { VF_REACH("too few"); break; }
            VF_ASSERT(memcmp(p, in + pos, ask) == 0, "the bytes are the string's, in order");
            VF_ASSERT(allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the block is the caller's");
            pos += ask;
            VF_REACH("exact");
        }
    }
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
static void check(RCPR_SYM(psock)* s)
{
    void* p = NULL;
    size_t n = 0;
    vf_failures = 0;
    status st = RCPR_SYM(psock_from_buffer_get_output_buffer)(s, vf_allocator_get2(), &p, &n);
    if (st != STATUS_SUCCESS)
    {
        VF_ASSERT(vf_failures > 0 && st == ERROR_GENERAL_OUT_OF_MEMORY && vf_live2 == 0, "the output is given out unless memory runs out");
        VF_REACH("output failed");
        return;
    }
    VF_ASSERT(n == nref, "the size is the number of bytes accepted");
    VF_ASSERT(memcmp(p, ref, nref) == 0, "the output is the bytes accepted, in order");
    VF_ASSERT(allocator_reclaim(vf_allocator_get2(), p) == STATUS_SUCCESS, "the block is the caller's");
    VF_REACH("output");
}
static void output(void)
{
    static uint8_t data[2 * BS];
    for (size_t i = 0; i < sizeof data; ++i) data[i] = (uint8_t)(i * 7 + (i >> 8));
    RCPR_SYM(psock)* s = NULL;
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, vf_allocator_get(), NULL, 0) == STATUS_SUCCESS, "the socket is made");
    if (PRE > 0)
    {
        VF_ASSERT(RCPR_SYM(psock_write_raw_data)(s, data, PRE) == STATUS_SUCCESS, "the output is written");
        memcpy(ref, data, PRE);
        nref = PRE;
    }
    vf_may_fail = true;
    vf_max_failures = FAILS;
    unsigned all = 0;
    for (unsigned i = 0; i < STEPS; ++i)
    {
        static const size_t sizes[] = { 1, 2, 5, 6, 7, BS - 1, BS, BS + 5, BS + 6, BS + 9 };
        size_t n = sizes[step_len(i == 0 ? 10 : 5)];
        for (size_t k = 0; k < 3; ++k) data[k] = vf_u8();
        all += vf_failures; vf_failures = 0;
        vf_max_failures = all < FAILS ? FAILS - all : 0;
        status st = RCPR_SYM(psock_write_raw_data)(s, data, n);
        VF_ASSERT((st == STATUS_SUCCESS) == (vf_failures == 0), "a write fails exactly when memory runs out");
        if (st == STATUS_SUCCESS) { memcpy(ref + nref, data, n); nref += n; VF_REACH("accepted"); if (nref > BS) VF_REACH("grown"); }
        else { VF_ASSERT(st == ERROR_GENERAL_OUT_OF_MEMORY, "out of memory is reported"); VF_REACH("write failed"); }
        all += vf_failures; vf_failures = 0; vf_max_failures = 0;
        check(s);
    }
    vf_max_failures = 1;
    check(s);
    vf_may_fail = false;
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(vf_live == 0 && vf_live2 == 0, "nothing leaks");
}
static void both(void)
{
    unsigned k[2]; bval v[2];
    RCPR_SYM(psock)* s = NULL;
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, vf_allocator_get(), NULL, 0) == STATUS_SUCCESS, "the socket is made");
    for (unsigned i = 0; i < 2; ++i)
    {
        k[i] = b_pick();
        b_make(k[i], &v[i]);
        VF_ASSERT(b_write(s, k[i], &v[i]) == STATUS_SUCCESS, "the value is written");
    }
    void* p = NULL; size_t n = 0;
    VF_ASSERT(RCPR_SYM(psock_from_buffer_get_output_buffer)(s, vf_allocator_get(), &p, &n) == STATUS_SUCCESS, "the output is given out");
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, vf_allocator_get(), p, n) == STATUS_SUCCESS, "the socket is made");
    VF_ASSERT(allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the block is the caller's");
    for (unsigned i = 0; i < 2; ++i)
    {
        bval g; void* blk; bool pub;
        VF_ASSERT(b_read(s, k[i], &g, &blk, &pub) == STATUS_SUCCESS, "the value is read back");
        VF_ASSERT(g.n == v[i].n && g.len == v[i].len, "the value read equals the value written");
        if (blk != NULL)
        {
            VF_ASSERT(memcmp(blk, v[i].p, v[i].len) == 0, "the payload read equals the payload written");
            VF_ASSERT(allocator_reclaim(vf_allocator_get(), blk) == STATUS_SUCCESS, "the block is the caller's");
            if (v[i].len == 0 && i == 1) VF_REACH("empty payload at the end");
        }
    }
    VF_REACH("boxed");
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
void vf_main(void) { if (MODE == 0) input(); else if (MODE == 1) output(); else both(); }
