/* P08: which fibers the idle fiber wakes for each report of epoll_wait.
 * Sockets 0 and 1 each may have a fiber waiting to read and one waiting to
 * write; the main fiber waits to read on socket 2, which becomes readable
 * after ROUNDS reports. */
#include "../fiber/env.h"
#include "step.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
#include <src/fiber/common/fiber_internal.h>
RCPR_IMPORT_psock;
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef WAITS
#define WAITS 1
#endif
#ifndef SOCKS
#define SOCKS 2
#endif
/* zero is a descriptor like any other */
enum { EP = SOCKS == 1 ? 0 : 77, FD0 = 5 };
static bool ep_open, open_[3], registered[3];
static uint32_t armed[3]; static void* ptr[3];
static psock* s[3];
static unsigned round_, eintr_left = 1, ctl_fail_left;
/* waiter 2*i reads, 2*i+1 writes on socket i. */
static bool present[4], waiting[4]; static unsigned woken[4], expect[4], refused[4];
static fiber* fibs[4];
int vf_sys_epoll_create1(int fl) { (void)fl; ep_open = true; return EP; }
int vf_sys_close(int fd)
{
    if (fd == EP) { VF_ASSERT(ep_open, "the epoll descriptor is closed once"); ep_open = false; return 0; }
    VF_ASSERT(fd >= FD0 && fd < FD0 + 3 && open_[fd - FD0], "a descriptor is closed once");
    open_[fd - FD0] = false; armed[fd - FD0] = 0;
    return 0;
}
int vf_sys_fcntl(int fd, int cmd, long arg) { (void)fd; (void)cmd; (void)arg; return 0; }
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n) { (void)fd; (void)l; (void)o; (void)n; *(int*)v = SOCK_STREAM; return 0; }
int vf_sys_epoll_ctl(int e, int op, int fd, void* evp)
{
    struct epoll_event* ev = evp; int i = fd - FD0;
    VF_ASSERT(e == EP && i >= 0 && i < 3 && open_[i], "an open descriptor");
    if (op == EPOLL_CTL_MOD && !registered[i]) { errno = ENOENT; return -1; }
    VF_ASSERT(op == EPOLL_CTL_MOD || (op == EPOLL_CTL_ADD && !registered[i]), "the descriptor is registered once");
    if (op == EPOLL_CTL_ADD && ctl_fail_left > 0 && i < 2 && vf_bool()) { VF_ASSUME(1); --ctl_fail_left; errno = ENOSPC; return -1; }
    registered[i] = true;
    armed[i] = ev->events; ptr[i] = ev->data.ptr;
    return 0;
}
int vf_sys_epoll_wait(int e, void* evp, int n, int t)
{
    struct epoll_event* ev = evp; int cnt = 0;
    VF_ASSERT(e == EP && ep_open && n >= 3 && t == -1, "a wait for any time");
    for (int i = 0; i < SOCKS; ++i)
    {
        uint32_t need = (waiting[2 * i] ? EPOLLIN : 0) | (waiting[2 * i + 1] ? EPOLLOUT : 0);
        uint32_t have = armed[i] & (EPOLLIN | EPOLLOUT);
        VF_ASSERT((have & need) == need, "every waiting fiber's readiness is watched for");
    }
    VF_ASSERT(armed[2] & EPOLLIN, "the main fiber stays waiting while nothing is reported for it");
    if (eintr_left > 0 && vf_bool()) { VF_ASSUME(1); --eintr_left; errno = EINTR; VF_REACH("interrupted"); return -1; }
    if (round_ < ROUNDS) for (int i = 0; i < SOCKS; ++i)
    {
        if (!armed[i]) continue;
        uint32_t can = (armed[i] & (EPOLLIN | EPOLLOUT | EPOLLPRI | EPOLLRDHUP)) | EPOLLERR | EPOLLHUP, m = 0;
        static const uint32_t bits[] = { EPOLLIN, EPOLLOUT, EPOLLRDHUP, EPOLLERR, EPOLLHUP };
        for (int b = 0; b < 5; ++b) if ((can & bits[b]) && vf_bool()) { VF_ASSUME(1); m |= bits[b]; }
        if (!m) continue;
        ev[cnt].events = m; ev[cnt].data.ptr = ptr[i]; ++cnt;
        VF_ASSERT(armed[i] & EPOLLONESHOT, "armed once");
        armed[i] &= EPOLLONESHOT; armed[i] = 0;
        if (waiting[2 * i] && (m & (EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP)))
        { ++expect[2 * i]; waiting[2 * i] = false; if (!(m & EPOLLIN)) VF_REACH("error or hang-up alone wakes a reader"); else VF_REACH("readable"); }
        if (waiting[2 * i + 1] && (m & (EPOLLOUT | EPOLLERR | EPOLLHUP)))
        { ++expect[2 * i + 1]; waiting[2 * i + 1] = false; if (!(m & EPOLLOUT)) VF_REACH("error or hang-up alone wakes a writer"); else VF_REACH("writable"); }
    }
    if (cnt == 0) { round_ = ROUNDS; ev[0].events = EPOLLIN; ev[0].data.ptr = ptr[2]; armed[2] = 0; cnt = 1; }
    else ++round_;
    if (cnt == 2) VF_REACH("two reports at once");
    return cnt;
}
static status waiter(void* c)
{
    int k = (int)(intptr_t)c;
    for (int i = 0; i < WAITS; ++i)
    {
        waiting[k] = true;
        status st = (k & 1) ? psock_write_block(s[k / 2]) : psock_read_block(s[k / 2]);
        if (st != STATUS_SUCCESS)
        {
            VF_ASSERT(waiting[k] && ctl_fail_left == 0, "a wait that ends with nothing reported fails only if it could not be watched for");
            waiting[k] = false; ++refused[k];
            VF_REACH("not watched");
            break;
        }
        ++woken[k];
        VF_ASSERT(woken[k] == expect[k] && !waiting[k], "a fiber runs once for a report of its own readiness, and only then");
        VF_ASSERT(fibs[k]->restore_reason_code == ((k & 1) ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE
            : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ), "it is told which");
    }
    return STATUS_SUCCESS;
}
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    for (int i = 0; i < 3; ++i)
    {
        psock* c = NULL;
        open_[i] = true;
        VF_ASSERT(psock_create_from_descriptor(&c, vf_allocator_get(), FD0 + i) == STATUS_SUCCESS, "a socket is made");
        VF_ASSERT(psock_create_wrap_async(&s[i], vf_allocator_get(), main_fib, c) == STATUS_SUCCESS, "it is made asynchronous");
    }
    ctl_fail_left = CTLFAIL;
    bool writers_first = vf_bool();
    if (writers_first) VF_ASSUME(1);
    for (int j = 0; j < 2 * SOCKS; ++j) if (vf_bool())
    {
        int k = writers_first ? j ^ 1 : j;
        VF_ASSUME(1);
        present[k] = true;
        VF_ASSERT(fiber_create(&fibs[k], vf_allocator_get(), sched, 16384, (void*)(intptr_t)k, &waiter) == STATUS_SUCCESS, "a fiber is made");
        VF_ASSERT(fiber_scheduler_add(sched, fibs[k]) == STATUS_SUCCESS, "a fiber is added");
    }
    VF_ASSERT(psock_read_block(s[2]) == STATUS_SUCCESS, "the main fiber is woken by its own readiness");
    VF_ASSERT(round_ == ROUNDS, "and not before");
    for (int k = 0; k < 2 * SOCKS; ++k)
        VF_ASSERT(woken[k] == expect[k], "every fiber whose readiness was reported has run");
    for (int i = 0; i < 3; ++i)
        VF_ASSERT(resource_release(psock_resource_handle(s[i])) == STATUS_SUCCESS, "a socket is released");
    sched_drop();
    VF_ASSERT(!ep_open, "the epoll descriptor goes with the scheduler");
    VF_REACH("end");
}
