/* P07: async sockets over a descriptor whose transfers split, would-block,
 * end and fail anywhere, on the real scheduler and idle fiber.
 * MODE 0 read, 1 write, 2 accept / recvmsg / sendmsg, 3 lines through a
 * buffered reader. */
#include "../fiber/env.h"
#include "step.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
#ifndef LEN
#define LEN 4
#endif
#ifndef WB
#define WB 2
#endif
/* OTHER: the socket was made for another fiber of the scheduler. */
#ifndef OTHER
#define OTHER 0
#endif
#ifndef CANCEL
#define CANCEL 0
#endif
enum { FD = 5, EP = 77 };
static bool fd_open, ep_open, registered;
static uint32_t armed;               /* one-shot interest registered with epoll */
static void* armed_ptr;
static unsigned wb_left, eintr_left, waits;
static bool must_wait;               /* the last transfer would have blocked */
static uint32_t want;                /* what a blocked fiber waits for */
static bool nonblocking_call, cancelled, done_cancel;
/* the stream. */
static uint8_t in[LEN + 1], outb[2 * LEN + 2];
static size_t in_pos, out_pos;
static bool failed, ended, use_eof, may_fail;
static int calls;

int vf_sys_epoll_create1(int fl) { (void)fl; ep_open = true; return EP; }
int vf_sys_close(int fd)
{
    if (fd == EP) { VF_ASSERT(ep_open, "the epoll descriptor is closed once"); ep_open = false; return 0; }
    VF_ASSERT(fd == FD && fd_open, "the descriptor is closed once");
    fd_open = false; armed = 0; registered = false;
    return 0;
}
static int fl_state;
int vf_sys_fcntl(int fd, int cmd, long arg)
{
    VF_ASSERT(fd == FD, "the socket's descriptor");
    if (cmd == F_SETFL) { fl_state = (int)arg; return 0; }
    return fl_state;
}
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n) { (void)fd; (void)l; (void)o; (void)n; *(int*)v = SOCK_STREAM; return 0; }
int vf_sys_epoll_ctl(int e, int op, int fd, void* evp)
{
    struct epoll_event* ev = evp;
    VF_ASSERT(e == EP && fd == FD && ep_open && fd_open, "open descriptors");
    VF_ASSERT(!nonblocking_call, "a call that must not block does not wait");
    if (op == EPOLL_CTL_MOD && !registered) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_ADD && registered) { errno = EEXIST; return -1; }
    VF_ASSERT(op == EPOLL_CTL_MOD || op == EPOLL_CTL_ADD, "the descriptor is registered");
    registered = true;
    VF_ASSERT(ev->events & EPOLLONESHOT, "armed once");
    armed = ev->events & ~(uint32_t)EPOLLONESHOT;
    armed_ptr = ev->data.ptr;
    return 0;
}
int vf_sys_epoll_wait(int e, void* evp, int n, int t)
{
    struct epoll_event* ev = evp;
    VF_ASSERT(e == EP && ep_open && n >= 1 && t == -1, "a wait for any time");
    VF_ASSERT((must_wait || MODE == 3) && (armed & want) == want && armed == want, "a fiber waits for what its transfer lacked, and only then");
    if (eintr_left > 0 && vf_bool()) { VF_ASSUME(1); --eintr_left; errno = EINTR; VF_REACH("interrupted"); return -1; }
    ++waits;
    must_wait = false;
    ev[0].events = armed;
    if (vf_bool()) { VF_ASSUME(1); ev[0].events |= EPOLLHUP; }
    ev[0].data.ptr = armed_ptr;
    armed = 0;
    return 1;
}
static bool would_block(uint32_t w)
{
    VF_ASSERT(!must_wait, "after a transfer that would block it is awaited before the next");
    VF_ASSERT(fl_state & O_NONBLOCK, "the descriptor was made non-blocking");
    if (wb_left > 0 && vf_bool())
    {
        VF_ASSUME(1);
        --wb_left; errno = EAGAIN;
        want = w;
        if (!nonblocking_call && MODE != 3) must_wait = true;
        return true;
    }
    return false;
}
static size_t part(size_t n) { size_t k = 1 + vf_below((unsigned)n); for (size_t i = 1; i < n; ++i) if (k == i) return i; return n; }
ssize_t vf_sys_read(int fd, void* b, size_t n)
{
    VF_ASSERT(fd == FD && fd_open && n > 0, "a transfer on the open socket");
    if (would_block(EPOLLIN)) return -1;
    if (may_fail && vf_bool()) { VF_ASSUME(1); failed = true; errno = ECONNRESET; return -1; }
    if (in_pos == LEN || (use_eof && vf_bool())) { VF_ASSUME(1); ended = true; return 0; }
    if (n > LEN - in_pos) n = LEN - in_pos;
    size_t k = part(n);
    memcpy(b, in + in_pos, k);
    in_pos += k;
    return (ssize_t)k;
}
ssize_t vf_sys_write(int fd, const void* b, size_t n)
{
    VF_ASSERT(fd == FD && fd_open && n > 0, "a transfer on the open socket");
    if (would_block(EPOLLOUT)) return -1;
    if (may_fail && vf_bool()) { VF_ASSUME(1); failed = true; errno = EPIPE; return -1; }
    if (use_eof && vf_bool()) { VF_ASSUME(1); ended = true; return 0; }
    size_t k = part(n);
    memcpy(outb + out_pos, b, k);
    out_pos += k;
    return (ssize_t)k;
}
static int accepted = -1; static struct msghdr msg; static bool msg_done;
int vf_sys_accept(int fd, void* a, unsigned* n)
{
    VF_ASSERT(fd == FD && a && n, "the listening descriptor");
    if (would_block(EPOLLIN)) return -1;
    if (may_fail && vf_bool()) { VF_ASSUME(1); failed = true; errno = EMFILE; return -1; }
    accepted = 9;
    return 9;
}
ssize_t vf_sys_sendmsg(int fd, const void* m, int fl)
{
    VF_ASSERT(fd == FD && m == &msg && fl == 3, "the caller's message");
    if (would_block(EPOLLOUT)) return -1;
    if (may_fail && vf_bool()) { VF_ASSUME(1); failed = true; errno = EPIPE; return -1; }
    VF_ASSERT(!msg_done, "a message is sent once"); msg_done = true;
    return 7;
}
ssize_t vf_sys_recvmsg(int fd, void* m, int fl)
{
    VF_ASSERT(fd == FD && m == &msg && fl == 3, "the caller's message");
    if (would_block(EPOLLIN)) return -1;
    if (may_fail && vf_bool()) { VF_ASSUME(1); failed = true; errno = ECONNRESET; return -1; }
    VF_ASSERT(!msg_done, "a message is received once"); msg_done = true;
    return 7;
}
/* a fiber that asks the one doing the transfer to shut down. */
static bool handler, handler_ok; static unsigned handled;
static status on_unexpected(void* ctx, fiber* f, const rcpr_uuid* id, int ev, void* p, const rcpr_uuid* xid, int xev)
{
    (void)p;
    VF_ASSERT(ctx == &handled && f == main_fib, "the handler gets its context and fiber");
    VF_ASSERT(memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, sizeof *id) == 0
        && ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST, "the handler is told of the request");
    VF_ASSERT(memcmp(xid, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, sizeof *id) == 0
        && xev == (want == EPOLLIN ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ
                                   : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE), "and of what was awaited");
    ++handled;
    return handler_ok ? STATUS_SUCCESS : 0x1234;
}
static status on_other(void* ctx, fiber* f, const rcpr_uuid* id, int ev, void* p, const rcpr_uuid* xid, int xev)
{
    (void)ctx; (void)f; (void)id; (void)ev; (void)p; (void)xid; (void)xev;
    VF_ASSERT(0, "a fiber's handler is not told of what another fiber receives");
    return STATUS_SUCCESS;
}
static status canceller(void* c)
{
    (void)c;
    cancelled = true;
    status st = disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, main_fib);
    VF_ASSERT(st == STATUS_SUCCESS, "a waiting fiber can be asked to shut down");
    return STATUS_SUCCESS;
}
static status bystander(void* c) { (void)c; return STATUS_SUCCESS; }
static psock* s; static const RCPR_SYM(psock_vtable)* vt;
static void outcome(status st, size_t moved, size_t n)
{
    bool shut = cancelled && !(handler && handler_ok);
    if (st == STATUS_SUCCESS)
        VF_ASSERT(!shut && (moved == n || (nonblocking_call && moved > 0)), "success means everything asked for, or what there was without blocking");
    else if (shut) { VF_REACH("shut down"); must_wait = false; }
    else
    {
        VF_ASSERT(failed || ended || (nonblocking_call && moved == 0), "a failure has a cause");
        if (MODE == 0) VF_ASSERT((st == ERROR_PSOCK_READ_WOULD_BLOCK) == (nonblocking_call && !failed && !ended), "a read that would block says so, and no other");
        if (MODE == 0 && ended && !failed) VF_ASSERT(st == ERROR_PSOCK_READ_EOF, "the end is reported as the end");
        if (failed) VF_REACH("failed"); else if (ended) VF_REACH("ended"); else VF_REACH("would block");
    }
    if (cancelled) VF_ASSERT(handled == (handler ? 1u : 0u), "the request reaches the handler once");
    VF_ASSERT(!must_wait, "a call that must wait does not return before");
}
void vf_main(void)
{
    vf_may_fail = false;
    for (int i = 0; i < LEN; ++i) in[i] = vf_u8();
    sched_make();
    fd_open = true;
    psock* c = NULL;
    VF_ASSERT(psock_create_from_descriptor(&c, vf_allocator_get(), FD) == STATUS_SUCCESS, "the socket is made");
    fiber* owner = main_fib;
    if (OTHER) VF_ASSERT(fiber_create(&owner, vf_allocator_get(), sched, 16384, NULL, &bystander) == STATUS_SUCCESS
        && fiber_scheduler_add(sched, owner) == STATUS_SUCCESS, "another fiber is added");
    VF_ASSERT(psock_create_wrap_async(&s, vf_allocator_get(), owner, c) == STATUS_SUCCESS, "it is made asynchronous");
    VF_ASSERT(resource_vtable_read((const resource_vtable**)&vt, psock_resource_handle(s)) == STATUS_SUCCESS, "it has methods");
    if (CANCEL)
    {
        fiber* cf;
        handler = vf_bool(); handler_ok = vf_bool();
        if (handler) { VF_ASSUME(1); VF_ASSERT(fiber_unexpected_event_callback_add(main_fib, &on_unexpected, &handled) == STATUS_SUCCESS, "the handler is set"); }
        VF_ASSERT(fiber_create(&cf, vf_allocator_get(), sched, 16384, NULL, &canceller) == STATUS_SUCCESS, "a fiber is made");
        VF_ASSERT(fiber_scheduler_add(sched, cf) == STATUS_SUCCESS, "a fiber is added");
    }
    if (OTHER && vf_bool()) { VF_ASSUME(1); VF_ASSERT(fiber_unexpected_event_callback_add(owner, &on_other, NULL) == STATUS_SUCCESS, "the other's handler is set"); }
    wb_left = WB; eintr_left = 1;
    may_fail = !CANCEL; use_eof = !CANCEL;
    if (MODE == 0)
    {
        for (int i = 0; i < STEPS && !failed && !ended && !cancelled; ++i)
        {
            uint8_t buf[LEN + 2];
            memset(buf, 0xc7, sizeof buf);
            size_t n = 1 + step_len(LEN), size = n, before = in_pos;
            bool block = vf_bool();
            if (block) VF_ASSUME(1);
            nonblocking_call = !block;
            status st = vt->read_fn(s, NULL, buf, &size, block);
            VF_ASSERT(size <= n && size == in_pos - before, "the size says how many bytes were moved");
            VF_ASSERT(memcmp(buf, in + before, size) == 0, "the bytes are delivered once each and in order");
            VF_ASSERT(buf[size] == 0xc7, "nothing is written beyond");
            outcome(st, size, n);
            if (st == STATUS_SUCCESS) VF_REACH("read");
            if (waits) VF_REACH("waited");
            if (nonblocking_call && size > 0) VF_ASSERT(st == STATUS_SUCCESS, "bytes moved without blocking are delivered");
        }
    }
    else if (MODE == 1)
    {
        for (int i = 0; i < STEPS && !failed && !ended && !cancelled; ++i)
        {
            size_t n = 1 + step_len(LEN), size = n, before = out_pos;
            status st = vt->write_fn(s, NULL, in, &size);
            VF_ASSERT(size == out_pos - before, "the size says how many bytes were moved");
            VF_ASSERT(memcmp(outb + before, in, size) == 0, "the bytes go out once each and in order");
            outcome(st, size, n);
            if (st == STATUS_SUCCESS) VF_REACH("written");
            if (waits) VF_REACH("waited");
        }
    }
    else if (MODE == 2)
    {
        unsigned which = vf_below(3);
        status st;
        if (which == 0)
        {
            struct sockaddr sa; socklen_t sl = sizeof sa; int d = -1;
            st = psock_accept(s, &d, &sa, &sl);
            VF_ASSERT(d == accepted, "the accepted descriptor is given out");
            if (st == STATUS_SUCCESS) VF_REACH("accepted");
            VF_ASSERT((st == STATUS_SUCCESS) == (d >= 0), "success is an accepted descriptor");
        }
        else if (which == 1)
        {
            st = vt->sendmsg_fn(s, NULL, &msg, 3);
            VF_ASSERT((st == STATUS_SUCCESS) == msg_done, "success is a sent message");
            if (st == STATUS_SUCCESS) VF_REACH("sent");
        }
        else
        {
            size_t n = 0;
            st = vt->recvmsg_fn(s, NULL, &msg, &n, 3);
            VF_ASSERT((st == STATUS_SUCCESS) == msg_done && (st || n == 7), "success is a received message and its size");
            if (st == STATUS_SUCCESS) VF_REACH("received");
        }
        outcome(st, 0, 0);
        if (waits) VF_REACH("waited");
    }
    else
    {
        /* a line and the rest through a buffered reader: all that came before the end. */
        RCPR_SYM(psock_br)* br; uint8_t buf[LEN + 2]; size_t pos = 0;
        use_eof = false; may_fail = vf_bool();
        if (may_fail) VF_ASSUME(1);
        VF_ASSERT(psock_br_create_from_psock(&br, vf_allocator_get(), s) == STATUS_SUCCESS, "the reader is made");
        for (int i = 0; i <= LEN; ++i)
        {
            size_t sz = sizeof buf, n = 0;
            while (pos + n < LEN && in[pos + n] != '\n') ++n;
            status st = psock_br_read_line(buf, &sz, br);
            if (st != STATUS_SUCCESS)
            {
                VF_ASSERT(pos == in_pos, "no received byte is lost");
                VF_ASSERT(failed || ended, "a failure has a cause");
                VF_REACH("no more lines");
                break;
            }
            VF_ASSERT(sz >= 1 && sz - 1 <= in_pos - pos && buf[sz - 1] == 0 && memcmp(buf, in + pos, sz - 1) == 0, "the line's bytes");
            VF_ASSERT(sz - 1 == n || failed, "a whole line");
            pos += sz - 1;
            if (pos < in_pos) { VF_ASSERT(in[pos] == '\n', "lines end at a newline"); ++pos; VF_REACH("line"); } else VF_REACH("last line");
            if (waits) VF_REACH("waited");
        }
        VF_ASSERT(resource_release(psock_br_resource_handle(br)) == STATUS_SUCCESS, "the reader is released");
        VF_ASSERT(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "the socket is released");
        VF_ASSERT(!fd_open, "the descriptor goes with the socket");
        sched_drop();
        VF_ASSERT(!ep_open, "the epoll descriptor goes with the scheduler");
        VF_REACH("end");
        return;
    }
    VF_ASSERT(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(!fd_open, "the descriptor goes with the socket");
    sched_drop();
    VF_ASSERT(!ep_open, "the epoll descriptor goes with the scheduler");
    VF_REACH("end");
}
