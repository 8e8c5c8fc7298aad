/* P07 with any 64-bit size: a descriptor that looks only at where a transfer
 * starts and how long it is, moves any part of it, would block or fails.
 * MODE 0 read, 1 write. */
#include "../fiber/env.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
enum { FD = 5, EP = 77 };
#define MAXSIZE ((size_t)1 << 46)
static uint8_t some[8];
static size_t n, pos; static unsigned calls, parts, waits, blocks; static bool failed, ended;
static bool armed, registered; static void* armed_ptr; static uint32_t armed_for; static int fl_state;
int vf_sys_epoll_create1(int fl) { (void)fl; return EP; }
int vf_sys_close(int fd) { VF_ASSERT(fd == EP || fd == FD, "open descriptors"); return 0; }
int vf_sys_fcntl(int fd, int cmd, long arg) { VF_ASSERT(fd == FD, "the socket's descriptor"); if (cmd == F_SETFL) { fl_state = (int)arg; return 0; } return fl_state; }
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* z) { (void)fd; (void)l; (void)o; (void)z; *(int*)v = SOCK_STREAM; return 0; }
int vf_sys_epoll_ctl(int e, int op, int fd, void* evp)
{
    struct epoll_event* ev = evp;
    VF_ASSERT(e == EP && fd == FD && (op == EPOLL_CTL_MOD || op == EPOLL_CTL_ADD), "the descriptor is registered");
    if (op == EPOLL_CTL_MOD && !registered) { errno = ENOENT; return -1; }
    registered = armed = true;
    armed_for = ev->events & (EPOLLIN | EPOLLOUT); armed_ptr = ev->data.ptr;
    return 0;
}
int vf_sys_epoll_wait(int e, void* evp, int k, int t)
{
    struct epoll_event* ev = evp;
    VF_ASSERT(e == EP && k >= 1 && t == -1, "a wait for any time");
    VF_ASSERT(armed && armed_for == (MODE ? EPOLLOUT : EPOLLIN), "a fiber waits for what its transfer lacked");
    ++waits;
    ev[0].events = armed_for; ev[0].data.ptr = armed_ptr;
    armed = false;
    return 1;
}
static ssize_t move(int fd, const void* b, size_t z)
{
    VF_ASSERT(fd == FD && !failed && !ended, "nothing follows a transfer that failed");
    VF_ASSERT((const uint8_t*)b == some + pos, "each transfer starts where the last one stopped");
    VF_ASSERT(z > 0 && z <= n - pos, "and asks for bytes that are left");
    VF_ASSERT(waits == blocks, "after a transfer that would block it is awaited before the next");
    if (++calls > 4) { failed = true; errno = ECONNRESET; return -1; }
    switch (vf_below(4))
    {
        case 0: VF_ASSUME(blocks < 2); ++blocks; errno = EAGAIN; return -1;
        case 1: failed = true; errno = ECONNRESET; return -1;
        case 2: ended = true; return 0;
        default: break;
    }
    VF_ASSUME(1);
    size_t k = calls == 4 || parts++ == 1 ? z : vf_size();
    VF_ASSUME(k > 0 && k <= z);
    pos += k;
    return (ssize_t)k;
}
ssize_t vf_sys_read(int fd, void* b, size_t z) { VF_ASSERT(MODE == 0, "the transfer asked for"); return move(fd, b, z); }
ssize_t vf_sys_write(int fd, const void* b, size_t z) { VF_ASSERT(MODE == 1, "the transfer asked for"); return move(fd, b, z); }
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    n = vf_size();
    VF_ASSUME(n > 0 && n <= MAXSIZE);
    psock *c = NULL, *s = NULL;
    VF_ASSERT(psock_create_from_descriptor(&c, vf_allocator_get(), FD) == STATUS_SUCCESS
        && psock_create_wrap_async(&s, vf_allocator_get(), main_fib, c) == STATUS_SUCCESS, "an async socket is made");
    const psock_vtable* vt = NULL;
    VF_ASSERT(resource_vtable_read((const resource_vtable**)&vt, psock_resource_handle(s)) == STATUS_SUCCESS, "the table");
    size_t z = n;
    status st = MODE ? vt->write_fn(s, NULL, some, &z) : vt->read_fn(s, NULL, some, &z, true);
    VF_ASSERT((st == STATUS_SUCCESS) == (pos == n), "the transfer succeeds exactly when all was moved");
    VF_ASSERT(z == pos, "what was moved is reported");
    VF_ASSERT(waits == blocks, "it is awaited once for each would-block");
    if (st == STATUS_SUCCESS && n > UINT32_MAX && calls > 2) VF_REACH("large");
    if (failed) VF_REACH("failed");
    if (ended) VF_REACH("ended");
    VF_ASSERT(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "the socket is released");
    sched_drop();
    VF_REACH("end");
}
