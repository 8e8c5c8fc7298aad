/* P01, P03, P04, P06 with large sizes: lengths around the byte boundaries of
 * the size field and the library's buffer size, contents fixed but for a few
 * symbolic bytes, a transport that moves all, at most 1000 or at most 4097
 * bytes at a time.
 * KIND 0 raw data, 1 boxed string or data, 2 memory socket, 3 buffered reader. */
#ifndef STEPS
#define STEPS 2
#endif
#ifndef LINES
#define LINES 0
#endif
#define BIG 70000
#define XCAP (BIG + 16)
#include "xport.h"
#include "step.h"
static xport w, r;
static uint8_t src[BIG + 1];
static size_t chunk; static uint8_t tagbuf[8];
static status chunk_read(RCPR_SYM(psock)* s, void* c, void* data, size_t* size, bool block)
{
    (void)s; (void)block;
    xport* x = (xport*)c;
    size_t n = x->in_len - x->in_pos;
    if (n > *size) n = *size;
    if (n > chunk) n = chunk;
    memcpy(data, x->in + x->in_pos, n);
    x->in_pos += n;
    *size = n;
    return STATUS_SUCCESS;
}
static status chunk_write(RCPR_SYM(psock)* s, void* c, const void* data, size_t* size)
{
    (void)s;
    xport* x = (xport*)c;
    size_t n = *size;
    if (n > chunk) n = chunk;
    VF_ASSERT(n <= XCAP - x->out_len, "no more is written than was asked for");
    memcpy(x->out + x->out_len, data, n);
    x->out_len += n;
    *size = n;
    return STATUS_SUCCESS;
}
static const size_t sizes[] = { 0, 255, 256, 4095, 4096, 4097, 65535, 65536, BIG };
static size_t some_size(void) { return sizes[step_len(9)]; }
static void fill(size_t n)
{
    for (size_t i = 0; i < n; ++i) src[i] = (uint8_t)(1 + (i * 7 + (i >> 8)) % 251);
    if (n > 0) { src[0] = vf_u8(); src[n - 1] = vf_u8(); VF_ASSUME(src[0] != 0 && src[n - 1] != 0); }
    src[n] = 0;
}
static void give(size_t n)
{
    static const size_t chunks[] = { XCAP, 1000, 4097 };
    chunk = chunks[step_len(3)];
    memcpy(r.in, w.out, n);
    r.in_len = n;
}
static void check(const uint8_t* p, size_t n, size_t at)
{
    VF_ASSERT(memcmp(p, src + at, n) == 0, "the bytes are the ones written, in order");
}
static void raw(void)
{
    size_t n = some_size();
    fill(n);
    give(0);
    RCPR_SYM(psock)* s = xp_open(&w);
    VF_ASSERT(RCPR_SYM(psock_write_raw_data)(s, src, n) == STATUS_SUCCESS && w.out_len == n, "every byte is written");
    check(w.out, n, 0);
    xp_close(s, &w);
    give(n);
    s = xp_open(&r);
    void* p = NULL;
    VF_ASSERT(RCPR_SYM(psock_read_raw_data)(s, vf_allocator_get(), &p, n) == STATUS_SUCCESS, "every byte is read");
    check(p, n, 0);
    VF_ASSERT(r.in_pos == n && allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "and no other");
    xp_close(s, &r);
    VF_REACH("raw");
}
static void boxed(void)
{
    size_t n = some_size();
    bool str = vf_bool();
    if (str) VF_ASSUME(1);
    fill(n);
    chunk = XCAP;
    RCPR_SYM(psock)* s = xp_open(&w);
    status st = str ? RCPR_SYM(psock_write_boxed_string)(s, (const char*)src) : RCPR_SYM(psock_write_boxed_data)(s, src, n);
    VF_ASSERT(st == STATUS_SUCCESS && w.out_len == n + 8, "the value is written");
    tagbuf[3] = str ? 0x20 : 0x22;
    for (int i = 0; i < 4; ++i) tagbuf[4 + i] = (uint8_t)(n >> (24 - 8 * i));
    VF_ASSERT(memcmp(w.out, tagbuf, 8) == 0, "as its tag and size, most significant byte first");
    check(w.out + 8, n, 0);
    xp_close(s, &w);
    give(n + 8);
    s = xp_open(&r);
    void* p = NULL; size_t m = 0;
    if (str) st = RCPR_SYM(psock_read_boxed_string)(s, vf_allocator_get(), (char**)&p, &m);
    else st = RCPR_SYM(psock_read_boxed_data)(s, vf_allocator_get(), &p, &m);
    if (st != STATUS_SUCCESS) { VF_ASSERT(chunk < n + 8 && p == NULL, "a value the transport serves whole is read"); xp_close(s, &r); VF_REACH("not whole"); return; }
    VF_ASSERT(m == n && r.in_pos == n + 8, "the value read is the one written");
    check(p, n, 0);
    if (str) VF_ASSERT(((char*)p)[n] == 0, "a string is terminated");
    VF_ASSERT(allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the block is the caller's");
    xp_close(s, &r);
    VF_REACH("boxed");
}
/* around the reader's buffer (16384) and the memory socket's blocks (4096). */
static const size_t asks[] = { 1, 4096, 16383, 16384, 16385, 40000 };
static void memory(void)
{
    static uint8_t buf[BIG + 1];
    size_t n = some_size(), pos = 0;
    fill(n);
    RCPR_SYM(psock)* s = NULL;
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, vf_allocator_get(), (const char*)src, n) == STATUS_SUCCESS, "the socket is made");
    for (unsigned i = 0; i < STEPS && pos < n; ++i)
    {
        size_t ask = asks[step_len(6)], sz = ask;
        buf[ask] = 0xc7;
        VF_ASSERT(RCPR_SYM(psock_read_raw)(s, buf, &sz) == STATUS_SUCCESS && sz == (ask < n - pos ? ask : n - pos), "as many bytes as are left are read");
        check(buf, sz, pos);
        VF_ASSERT(buf[ask] == 0xc7, "nothing is written beyond");
        pos += sz;
    }
    size_t sz = BIG;
    status st = RCPR_SYM(psock_read_raw)(s, buf, &sz);
    if (pos == n) { VF_ASSERT(st == ERROR_PSOCK_READ_EOF, "after the last byte comes the end of the stream"); VF_REACH("end of stream"); }
    else { VF_ASSERT(st == STATUS_SUCCESS && sz == n - pos, "the rest is read"); check(buf, sz, pos); VF_REACH("memory"); sz = 1; VF_ASSERT(RCPR_SYM(psock_read_raw)(s, buf, &sz) == ERROR_PSOCK_READ_EOF, "and then the stream is at its end"); }
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
}
static void buffered(void)
{
    static uint8_t buf[40001];
    static const size_t feeds[] = { 16383, 16384, 33000 };
    enum { N = 50000 };
    size_t pos = 0, nl = feeds[step_len(3)];
    fill(N);
    for (size_t i = 0; i < N; ++i) if (src[i] == '\n') src[i] = 'x';
    VF_ASSUME(src[0] != '\n' && src[N - 1] != '\n');
    src[nl] = '\n';
    memcpy(w.out, src, N);
    give(N);
    RCPR_SYM(psock)* s = xp_open(&r);
    RCPR_SYM(psock_br)* br = NULL;
    VF_ASSERT(RCPR_SYM(psock_br_create_from_psock)(&br, vf_allocator_get(), s) == STATUS_SUCCESS, "the reader is made");
    RCPR_SYM(psock)* ad = RCPR_SYM(psock_br_psock_adapter)(br);
    bool gone = false;
    for (unsigned i = 0; i < STEPS && !gone; ++i)
    {
        size_t n = asks[step_len(6)];
        switch (LINES ? 2 : step_len(3))
        {
            case 0:
            {
                size_t sz = n;
                buf[n] = 0xc7;
                status st = RCPR_SYM(psock_read_raw)(ad, buf, &sz);
                if (pos == N) { VF_ASSERT(st == ERROR_PSOCK_READ_EOF, "the end is reported"); VF_REACH("end"); break; }
                VF_ASSERT(st == STATUS_SUCCESS && sz > 0 && sz <= n && sz <= N - pos && buf[n] == 0xc7, "a partial read moves between one byte and those asked for");
                check(buf, sz, pos);
                pos += sz;
                VF_REACH("partial");
                break;
            }
            case 1:
            {
                void* p = NULL;
                status st = RCPR_SYM(psock_read_raw_data)(ad, vf_allocator_get(), &p, n);
                VF_ASSERT((st == STATUS_SUCCESS) == (N - pos >= n), "an exact read of bytes the stream has succeeds");
                if (st != STATUS_SUCCESS) { gone = true; VF_REACH("exact failed"); break; }
                check(p, n, pos);
                pos += n;
                VF_ASSERT(allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the block is the caller's");
                VF_REACH("exact");
                break;
            }
            default:
            {
                if (n < 2) n = 2;
                size_t sz = n, m = (pos <= nl ? nl : N) - pos;
                buf[n] = 0xc7;
                status st = RCPR_SYM(psock_br_read_line)(buf, &sz, br);
                VF_ASSERT(buf[n] == 0xc7, "nothing is written past the buffer");
                if (pos == N) { VF_ASSERT(st != STATUS_SUCCESS && st != ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "the end is reported"); break; }
                if (m + 1 <= n)
                {
                    VF_ASSERT(st == STATUS_SUCCESS && sz == m + 1 && buf[m] == 0, "a line is read whole and terminated");
                    check(buf, m, pos);
                    pos += m;
                    if (pos == nl) ++pos;
                    VF_REACH("line");
                }
                else
                {
                    VF_ASSERT(st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED && sz == n - 1 && buf[sz] == 0, "a line too long for the buffer is truncated");
                    check(buf, sz, pos);
                    pos += sz;
                    VF_REACH("truncated");
                }
            }
        }
    }
    if (!gone)
    {
        while (pos < N)
        {
            size_t sz = 40000;
            VF_ASSERT(RCPR_SYM(psock_read_raw)(ad, buf, &sz) == STATUS_SUCCESS && sz > 0 && sz <= N - pos, "no byte received is lost");
            check(buf, sz, pos);
            pos += sz;
        }
        VF_REACH("drained");
    }
    VF_ASSERT(resource_release(RCPR_SYM(psock_br_resource_handle)(br)) == STATUS_SUCCESS, "the reader is released");
    xp_close(s, &r);
}
void vf_main(void)
{
    xp_vtable.read_fn = &chunk_read;
    xp_vtable.write_fn = &chunk_write;
    if (KIND == 0) raw(); else if (KIND == 1) boxed(); else if (KIND == 2) memory(); else buffered();
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
