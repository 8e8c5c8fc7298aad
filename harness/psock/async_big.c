/* P07 with large transfers: a fiber writes (MODE 1) or reads (MODE 0) a large
 * block on an async socket whose descriptor moves at most so many bytes at a
 * time and would block before every so-many-th transfer. */
#include "../fiber/env.h"
#include "step.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
#define BIG 70000
enum { FD = 5, EP = 77 };
static uint8_t src[BIG + 1], dst[BIG + 1];
static size_t n, pos, chunk, every, calls, limit; static unsigned waits, blocks, others;
static bool armed, registered; static void* armed_ptr; static uint32_t armed_for; static int fl_state;
int vf_sys_epoll_create1(int fl) { (void)fl; return EP; }
int vf_sys_close(int fd) { VF_ASSERT(fd == EP || fd == FD, "open descriptors"); return 0; }
int vf_sys_fcntl(int fd, int cmd, long arg) { VF_ASSERT(fd == FD, "the socket's descriptor"); if (cmd == F_SETFL) { fl_state = (int)arg; return 0; } return fl_state; }
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* z) { (void)fd; (void)l; (void)o; (void)z; *(int*)v = SOCK_STREAM; return 0; }
int vf_sys_epoll_ctl(int e, int op, int fd, void* evp)
{
    struct epoll_event* ev = evp;
    VF_ASSERT(e == EP && fd == FD && (op == EPOLL_CTL_MOD || op == EPOLL_CTL_ADD), "the descriptor is registered");
    if (op == EPOLL_CTL_MOD && !registered) { errno = ENOENT; return -1; }
    registered = armed = true;
    armed_for = ev->events & (EPOLLIN | EPOLLOUT); armed_ptr = ev->data.ptr;
    return 0;
}
int vf_sys_epoll_wait(int e, void* evp, int k, int t)
{
    struct epoll_event* ev = evp;
    VF_ASSERT(e == EP && k >= 1 && t == -1, "a wait for any time");
    VF_ASSERT(armed && armed_for == (MODE ? EPOLLOUT : EPOLLIN), "a fiber waits for what its transfer lacked");
    ++waits;
    ev[0].events = armed_for; ev[0].data.ptr = armed_ptr;
    armed = false;
    return 1;
}
static bool would_block(void)
{
    VF_ASSERT(waits == blocks, "after a transfer that would block it is awaited before the next");
    if (every && ++calls % every == 0) { ++blocks; errno = EAGAIN; return true; }
    return false;
}
ssize_t vf_sys_read(int fd, void* b, size_t z)
{
    VF_ASSERT(fd == FD && z > 0, "a transfer on the open socket");
    if (would_block()) return -1;
    if (z > chunk) z = chunk;
    if (z > limit - pos) z = limit - pos;
    memcpy(b, src + pos, z);
    pos += z;
    return (ssize_t)z;
}
ssize_t vf_sys_write(int fd, const void* b, size_t z)
{
    VF_ASSERT(fd == FD && z > 0 && z <= n - pos, "no more is written than was asked for");
    if (would_block()) return -1;
    if (z > chunk) z = chunk;
    if (z > limit - pos) z = limit - pos;
    memcpy(dst + pos, b, z);
    pos += z;
    return (ssize_t)z;
}
void vf_main(void)
{
    static const size_t sizes[] = { 255, 4096, 65536, BIG }, chunks[] = { 100, 4097, BIG }, blocking[] = { 0, 2, 3 };
    vf_may_fail = false;
    sched_make();
    n = sizes[step_len(4)]; chunk = chunks[step_len(3)]; every = blocking[step_len(3)];
    /* the peer goes away in between, or not. */
    limit = vf_bool() ? n : n - n / 3;
    if (limit == n) VF_ASSUME(1);
    for (size_t i = 0; i < n; ++i) src[i] = (uint8_t)(1 + (i * 7 + (i >> 8)) % 251);
    src[0] = vf_u8(); src[n - 1] = vf_u8();
    psock *c = NULL, *s = NULL;
    VF_ASSERT(psock_create_from_descriptor(&c, vf_allocator_get(), FD) == STATUS_SUCCESS
        && psock_create_wrap_async(&s, vf_allocator_get(), main_fib, c) == STATUS_SUCCESS, "an async socket is made");
    void* p = NULL;
    status st = MODE ? psock_write_raw_data(s, src, n) : psock_read_raw_data(s, vf_allocator_get(), &p, n);
    VF_ASSERT((st == STATUS_SUCCESS) == (limit == n), "the transfer succeeds exactly when all was moved");
    VF_ASSERT(pos == limit, "each byte is moved once");
    if (MODE) VF_ASSERT(memcmp(src, dst, limit) == 0, "the bytes are the ones written, in order");
    else if (st == STATUS_SUCCESS) VF_ASSERT(memcmp(src, p, n) == 0 && allocator_reclaim(vf_allocator_get(), p) == STATUS_SUCCESS, "the bytes are the ones sent, in order");
    VF_ASSERT(waits == blocks, "it is awaited once for each would-block");
    if (blocks > 100) VF_REACH("many waits");
    if (st != STATUS_SUCCESS) VF_REACH("ended");
    VF_ASSERT(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "the socket is released");
    sched_drop();
    VF_REACH("end");
}
