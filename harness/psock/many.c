/* P08: more sockets than one report can hold.  COUNT sockets each have a fiber
 * waiting to read (or, from the symbolic index WHO on, to write); the operating
 * system reports as many as asked for at a time, in either order. */
#ifndef COUNT
#define COUNT 1030
#endif
#define MAXMAP (COUNT + 4)
#include "../fiber/env.h"
#include "step.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
enum { EP = 4, FD0 = 5 };
static bool ep_open, open_[COUNT + 1], registered[COUNT + 1];
static uint32_t armed[COUNT + 1]; static void* ptr[COUNT + 1];
static psock* s[COUNT + 1];
static unsigned woken[COUNT], reported[COUNT]; static bool waiting[COUNT];
static int who, lost, batches; static bool backwards;
int vf_sys_epoll_create1(int fl) { (void)fl; ep_open = true; return EP; }
int vf_sys_close(int fd)
{
    if (fd == EP) { VF_ASSERT(ep_open, "the epoll descriptor is closed once"); ep_open = false; return 0; }
    VF_ASSERT(fd >= FD0 && fd <= FD0 + COUNT && open_[fd - FD0], "a descriptor is closed once");
    open_[fd - FD0] = false;
    return 0;
}
int vf_sys_fcntl(int fd, int cmd, long arg) { (void)fd; (void)cmd; (void)arg; return 0; }
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n) { (void)fd; (void)l; (void)o; (void)n; *(int*)v = SOCK_STREAM; return 0; }
int vf_sys_epoll_ctl(int e, int op, int fd, void* evp)
{
    struct epoll_event* ev = evp; int i = fd - FD0;
    VF_ASSERT(e == EP && i >= 0 && i <= COUNT && open_[i], "an open descriptor");
    if (op == EPOLL_CTL_MOD && !registered[i]) { errno = ENOENT; return -1; }
    registered[i] = true;
    armed[i] = ev->events; ptr[i] = ev->data.ptr;
    return 0;
}
int vf_sys_epoll_wait(int e, void* evp, int n, int t)
{
    struct epoll_event* ev = evp; int cnt = 0;
    VF_ASSERT(e == EP && ep_open && n >= 1 && t == -1, "a wait for any time");
    for (int k = 0; k < COUNT && cnt < n; ++k)
    {
        int i = backwards ? COUNT - 1 - k : k;
        if (!armed[i] || i == lost) continue;
        ev[cnt].events = armed[i] & (EPOLLIN | EPOLLOUT); ev[cnt].data.ptr = ptr[i]; ++cnt;
        armed[i] = 0;
        ++reported[i];
    }
    ++batches;
    if (cnt == 0) { VF_ASSERT(armed[COUNT], "the main fiber waits"); ev[0].events = EPOLLIN; ev[0].data.ptr = ptr[COUNT]; armed[COUNT] = 0; cnt = 1; }
    return cnt;
}
static status waiter(void* c)
{
    int k = (int)(intptr_t)c;
    waiting[k] = true;
    status st = k >= who ? psock_write_block(s[k]) : psock_read_block(s[k]);
    VF_ASSERT(st == STATUS_SUCCESS && reported[k] == 1, "a fiber is woken by the report of its own readiness");
    waiting[k] = false;
    ++woken[k];
    return STATUS_SUCCESS;
}
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    who = (int)step_len(3) * (COUNT / 2); lost = (int)step_len(3) * (COUNT / 2) - 1; backwards = vf_bool();
    if (backwards) VF_ASSUME(1);
    for (int i = 0; i <= COUNT; ++i)
    {
        psock* c = NULL;
        open_[i] = true;
        VF_ASSERT(psock_create_from_descriptor(&c, vf_allocator_get(), FD0 + i) == STATUS_SUCCESS, "a socket is made");
        VF_ASSERT(psock_create_wrap_async(&s[i], vf_allocator_get(), main_fib, c) == STATUS_SUCCESS, "it is made asynchronous");
    }
    for (int k = 0; k < COUNT; ++k)
    {
        fiber* f;
        VF_ASSERT(fiber_create(&f, vf_allocator_get(), sched, 16384, (void*)(intptr_t)k, &waiter) == STATUS_SUCCESS, "a fiber is made");
        VF_ASSERT(fiber_scheduler_add(sched, f) == STATUS_SUCCESS, "a fiber is added");
    }
    VF_ASSERT(psock_read_block(s[COUNT]) == STATUS_SUCCESS, "the main fiber is woken by its own readiness");
    for (int k = 0; k < COUNT; ++k)
        VF_ASSERT(k == lost ? (waiting[k] && woken[k] == 0) : (woken[k] == 1 && reported[k] == 1), "every fiber whose readiness was reported has run once, and no other");
    if (batches > 2) VF_REACH("several reports");
    for (int i = 0; i <= COUNT; ++i) VF_ASSERT(resource_release(psock_resource_handle(s[i])) == STATUS_SUCCESS, "a socket is released");
    sched_drop();
    VF_ASSERT(!ep_open, "the epoll descriptor goes with the scheduler");
    VF_REACH("end");
}
