/* P01, P03, P06, P10 with any 64-bit size: transports that look only at where
 * a transfer starts and how long it is, and move any part of it.
 * KIND 0 raw data written, 1 boxed data written, 2 one read, 3 raw data read
 * by a caller whose allocator refuses, 4 memory socket, 5 descriptor,
 * 6 buffered reader. */
#include "../vf.h"
#include "../vf_alloc.h"
#include "../vf_sys.h"
#include <errno.h>
#include <string.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
#define RERR 0x7101
#define WERR 0x7102
#define SMALL 16
/* no object is larger. */
#define MAXSIZE ((size_t)1 << 46)
static uint8_t src[SMALL], dst[SMALL];
static const uint8_t* base; static size_t n, pos, answered;
static unsigned calls; static bool zero, failed;
static uint8_t header[8]; static size_t nh; static bool boxed_write;
/* any part of n bytes, all of them from the third call on, none, or an error. */
static size_t part(size_t m)
{
    VF_ASSERT(!zero && !failed, "nothing follows a transfer that failed");
    if (++calls > 3) { failed = true; return 0; }
    if (vf_bool()) { VF_ASSUME(1); failed = true; return 0; }
    size_t k = calls == 3 ? m : vf_size();
    VF_ASSUME(k <= m);
    if (k == 0) { zero = true; }
    return k;
}
static status huge_write(RCPR_SYM(psock)* s, void* c, const void* data, size_t* size)
{
    (void)s; (void)c;
    if (boxed_write && nh < 8)
    {
        VF_ASSERT(*size <= 8 - nh, "the tag and the size");
        memcpy(header + nh, data, *size);
        nh += *size;
        return STATUS_SUCCESS;
    }
    VF_ASSERT((const uint8_t*)data == base + pos, "each transfer starts where the last one stopped");
    VF_ASSERT(*size > 0 && *size <= n - pos, "and asks for bytes that are left");
    size_t k = part(*size);
    if (failed) return WERR;
    pos += k;
    *size = k;
    return STATUS_SUCCESS;
}
static status huge_read(RCPR_SYM(psock)* s, void* c, void* data, size_t* size, bool block)
{
    (void)s; (void)c; (void)block;
    VF_ASSERT((uint8_t*)data == base && *size == n, "the caller's read");
    size_t k = part(*size);
    if (failed) return RERR;
    *size = answered = k;
    return STATUS_SUCCESS;
}
static const char text[] = "ab\ncd\n"; static size_t tpos;
static status text_read(RCPR_SYM(psock)* s, void* c, void* data, size_t* size, bool block)
{
    (void)s; (void)c; (void)block;
    size_t k = 6 - tpos;
    if (k > *size) k = *size;
    memcpy(data, text + tpos, k);
    tpos += k;
    *size = k;
    return k ? STATUS_SUCCESS : ERROR_PSOCK_READ_EOF;
}
static status huge_release(RCPR_SYM(psock)* s, void* c) { (void)s; (void)c; return STATUS_SUCCESS; }
static RCPR_SYM(psock_vtable) huge_vtable = { .hdr = { NULL }, .read_fn = &huge_read, .write_fn = &huge_write, .release_fn = &huge_release };
int vf_sys_close(int fd) { VF_ASSERT(fd == 5, "the descriptor"); return 0; }
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* z) { (void)fd; (void)l; (void)o; (void)z; *(int*)v = SOCK_STREAM; return 0; }
ssize_t vf_sys_read(int fd, void* b, size_t z)
{
    VF_ASSERT(fd == 5 && (uint8_t*)b == base && z == n, "the caller's read");
    size_t k = part(z);
    if (failed) { errno = ECONNRESET; return -1; }
    return (ssize_t)(answered = k);
}
ssize_t vf_sys_write(int fd, const void* b, size_t z)
{
    VF_ASSERT(fd == 5 && (const uint8_t*)b == base && z == n, "the caller's write");
    size_t k = part(z);
    if (failed) { errno = ECONNRESET; return -1; }
    return (ssize_t)(answered = k);
}
void vf_main(void)
{
    status st;
    RCPR_SYM(psock)* s = NULL;
    allocator* a = vf_allocator_get();
    vf_may_fail = false;
    n = vf_size();
    VF_ASSUME(n > 0 && n <= MAXSIZE);
    base = src;
#if KIND <= 3
    VF_ASSERT(RCPR_SYM(psock_create_from_user_methods)(&s, a, NULL, &huge_vtable) == STATUS_SUCCESS, "the socket is made");
#endif
#if KIND == 0
    st = RCPR_SYM(psock_write_raw_data)(s, src, n);
    VF_ASSERT((st == STATUS_SUCCESS) == (pos == n), "the write succeeds when all is written");
    if (st == STATUS_SUCCESS) VF_REACH("written");
    else if (failed) { VF_ASSERT(st == WERR, "the transport's error is the caller's"); VF_REACH("failed"); }
    else { VF_ASSERT(zero, "a write ends early when the transport takes no more"); VF_REACH("no more"); }
    if (n > UINT32_MAX && st == STATUS_SUCCESS && calls > 2) VF_REACH("large");
#elif KIND == 1
    VF_ASSUME(n <= UINT32_MAX);
    boxed_write = true;
    st = RCPR_SYM(psock_write_boxed_data)(s, src, n);
    VF_ASSERT(nh == 8 && header[0] == 0 && header[1] == 0 && header[2] == 0 && header[3] == 0x22, "the tag comes first");
    VF_ASSERT((((size_t)header[4] << 24) | ((size_t)header[5] << 16) | ((size_t)header[6] << 8) | header[7]) == n, "the size follows");
    VF_ASSERT((st == STATUS_SUCCESS) == (pos == n), "the write succeeds when all is written");
    if (failed) VF_ASSERT(st == WERR, "the transport's error is the caller's");
    if (st == STATUS_SUCCESS) { VF_REACH("written"); if (n > 0x7fffffff) VF_REACH("large"); } else VF_REACH("failed");
#elif KIND == 2
    size_t z = n;
    st = RCPR_SYM(psock_read_raw)(s, dst + (base = dst, 0), &z);
    if (failed) { VF_ASSERT(st == RERR, "the transport's error is the caller's"); VF_REACH("failed"); }
    else { VF_ASSERT(st == STATUS_SUCCESS && z == answered, "what was read is reported"); VF_REACH("read"); if (z > UINT32_MAX) VF_REACH("large"); }
#elif KIND == 3
    void* p = NULL;
    vf_max_block = 4096;
    VF_ASSUME(n > 4096);
    n = (n << 18) | (n >> 46);
    VF_ASSUME(n > 4096);
    st = RCPR_SYM(psock_read_raw_data)(s, a, &p, n);
    VF_ASSERT(st == ERROR_GENERAL_OUT_OF_MEMORY && p == NULL && calls == 0, "what does not fit in memory is not read");
    VF_REACH("refused");
#elif KIND == 4
    /* a source of 16 bytes, read with any size; then any size of which only the first bytes are looked at. */
    for (int i = 0; i < SMALL; ++i) src[i] = vf_u8();
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, a, (const char*)src, SMALL) == STATUS_SUCCESS, "the socket is made");
    size_t z = 4;
    VF_ASSERT(RCPR_SYM(psock_read_raw)(s, dst, &z) == STATUS_SUCCESS && z == 4 && memcmp(dst, src, 4) == 0, "the first bytes are read");
    VF_ASSUME(n >= SMALL - 4);
    z = n;
    VF_ASSERT(RCPR_SYM(psock_read_raw)(s, dst, &z) == STATUS_SUCCESS && z == SMALL - 4 && memcmp(dst, src + 4, SMALL - 4) == 0, "as many bytes as are left are read");
    z = n;
    VF_ASSERT(RCPR_SYM(psock_read_raw)(s, dst, &z) == ERROR_PSOCK_READ_EOF, "then comes the end");
    VF_REACH("read");
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    /* what does not fit in memory is refused. */
    vf_max_block = 65536;
    VF_ASSUME(n > vf_max_block);
    s = NULL;
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, a, (const char*)src, n) == ERROR_GENERAL_OUT_OF_MEMORY && s == NULL && vf_live == 0, "a source too large is refused");
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&s, a, NULL, 0) == STATUS_SUCCESS, "the socket is made");
    vf_may_fail = false;
    st = RCPR_SYM(psock_write_raw_data)(s, src, n);
    VF_ASSERT(st == ERROR_GENERAL_OUT_OF_MEMORY, "an output too large is refused");
    VF_ASSERT(RCPR_SYM(psock_write_raw_data)(s, src, 3) == STATUS_SUCCESS, "a smaller one is not");
    void* p = NULL; z = 0;
    VF_ASSERT(RCPR_SYM(psock_from_buffer_get_output_buffer)(s, a, &p, &z) == STATUS_SUCCESS && z == 3 && memcmp(p, src, 3) == 0, "what was written is there, and no other");
    VF_ASSERT(allocator_reclaim(a, p) == STATUS_SUCCESS, "the block is the caller's");
    VF_REACH("refused");
#elif KIND == 6
    VF_ASSUME(n >= SMALL);
    RCPR_SYM(psock_br)* br = NULL;
    huge_vtable.read_fn = &text_read;
    VF_ASSERT(RCPR_SYM(psock_create_from_user_methods)(&s, a, NULL, &huge_vtable) == STATUS_SUCCESS, "the socket is made");
    VF_ASSERT(RCPR_SYM(psock_br_create_from_psock)(&br, a, s) == STATUS_SUCCESS, "the reader is made");
    size_t z = n;
    bool line = vf_bool();
    if (line)
    {
        VF_ASSUME(1);
        st = RCPR_SYM(psock_br_read_line)(dst, &z, br);
        VF_ASSERT(st == STATUS_SUCCESS && z == 3 && memcmp(dst, "ab", 3) == 0, "a line is read into a buffer that has room for it");
        VF_REACH("line");
    }
    z = n;
    st = RCPR_SYM(psock_read_raw)(RCPR_SYM(psock_br_psock_adapter)(br), dst, &z);
    VF_ASSERT(st == STATUS_SUCCESS && z > 0 && z <= (line ? 3 : 6), "bytes that are there are read");
    for (size_t i = 0; i < 6; ++i) if (i < z) VF_ASSERT(dst[i] == (uint8_t)text[(line ? 3 : 0) + i], "in order");
    VF_REACH("read");
    VF_ASSERT(resource_release(RCPR_SYM(psock_br_resource_handle)(br)) == STATUS_SUCCESS, "the reader is released");
#else
    VF_ASSERT(RCPR_SYM(psock_create_from_descriptor)(&s, a, 5) == STATUS_SUCCESS, "the socket is made");
    if (vf_bool())
    {
        VF_ASSUME(1);
        size_t z = n;
        st = RCPR_SYM(psock_read_raw)(s, src, &z);
        if (failed) VF_ASSERT(st != STATUS_SUCCESS, "an error is reported");
        else { VF_ASSERT(st == STATUS_SUCCESS && z == answered, "what was read is reported"); if (z > UINT32_MAX) VF_REACH("large read"); }
    }
    else
    {
        const RCPR_SYM(psock_vtable)* vt = NULL;
        size_t z = n;
        VF_ASSERT(resource_vtable_read((const resource_vtable**)&vt, RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the table");
        st = vt->write_fn(s, NULL, src, &z);
        if (failed) VF_ASSERT(st != STATUS_SUCCESS, "an error is reported");
        else { VF_ASSERT(st == STATUS_SUCCESS && z == answered, "what was written is reported"); if (z > UINT32_MAX) VF_REACH("large write"); }
    }
#endif
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(vf_live == 0, "nothing leaks");
    VF_REACH("end");
}
