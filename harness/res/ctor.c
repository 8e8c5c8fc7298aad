/* One constructor (KIND) under every subset of its allocations failing. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include "../vf_sys.h"
#include <errno.h>
#include <string.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/thread.h>
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_psock;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_slist;
RCPR_IMPORT_stack;
RCPR_IMPORT_thread;
RCPR_IMPORT_compare;
RCPR_IMPORT_uuid;

enum { K_LIST, K_SLIST, K_QUEUE, K_RBTREE, K_TRIGGER, K_BIGINT, K_STACK, K_MUTEX, K_COND, K_FIBER, K_FIBER_THREAD,
       K_SCHED, K_SCHED_DISC, K_DISCIPLINE, K_MESSAGE, K_MSGDISC, K_CONDDISC, K_PSOCK_DESC, K_PSOCK_BUF, K_PSOCK_OUT,
       K_PSOCK_USER, K_PSOCK_ASYNC, K_PSOCK_BR, K_MAILBOX, K_CONDITIONAL, K_ADDFIBER, K_BIGCLONE, K_THREAD };

/* ---- what the operating system holds is counted; with OSFAIL one of its
 * calls may fail as well. */
#ifndef OSFAIL
#define OSFAIL 0
#endif
static int os_live;
static bool os_may_fail; static unsigned os_failures;
static bool os_fails(void)
{
    if (!os_may_fail || os_failures || !vf_bool()) return false;
    ++os_failures;
    errno = EMFILE;
    return true;
}
static long map_len[4]; static char* map_at[4];
void* vf_sys_mmap(void* p, size_t n, int pr, int fl, int fd, long off)
{
    (void)p; (void)pr; (void)fl; (void)fd; (void)off;
    if (os_fails()) return MAP_FAILED;
    for (int i = 0; i < 4; ++i) if (!map_at[i])
    {
        map_at[i] = malloc(n);
        VF_ASSUME(map_at[i] != NULL);
        map_len[i] = n;
        ++os_live;
        return map_at[i];
    }
    VF_ASSUME(0);
    return MAP_FAILED;
}
int vf_sys_munmap(void* p, size_t n)
{
    for (int i = 0; i < 4; ++i) if (p == map_at[i])
    {
        VF_ASSERT((size_t)map_len[i] == n, "a mapping is undone with its length");
        map_at[i] = NULL;
        free(p);
        --os_live;
        return 0;
    }
    VF_ASSERT(0, "only a live mapping is undone");
    return -1;
}
int vf_sys_mprotect(void* p, size_t n, int pr) { (void)p; (void)n; (void)pr; return 0; }
int vf_sys_pthread_mutex_init(void* m, const void* a) { (void)m; (void)a; ++os_live; return 0; }
int vf_sys_pthread_mutex_destroy(void* m) { (void)m; --os_live; return 0; }
int vf_sys_pthread_cond_init(void* m, const void* a) { (void)m; (void)a; ++os_live; return 0; }
int vf_sys_pthread_cond_destroy(void* m) { (void)m; --os_live; return 0; }
int vf_sys_pthread_attr_init(void* a) { (void)a; ++os_live; return 0; }
int vf_sys_pthread_attr_setstacksize(void* a, size_t n) { (void)a; (void)n; return 0; }
int vf_sys_pthread_attr_destroy(void* a) { (void)a; --os_live; return 0; }
int vf_sys_pthread_create(unsigned long* t, const void* a, void* (*f)(void*), void* c) { (void)a; (void)f; (void)c; *t = 1; ++os_live; return 0; }
int vf_sys_pthread_join(unsigned long t, void** r) { VF_ASSERT(t == 1, "the thread created is joined"); if (r) *r = NULL; --os_live; return 0; }
int vf_sys_epoll_create1(int fl) { (void)fl; if (os_fails()) return -1; ++os_live; return 77; }
static bool sock_open, close_may_fail;
static unsigned close_failures;
int vf_sys_close(int fd)
{
    VF_ASSERT(fd == 77 || (fd == 5 && sock_open), "only an open descriptor is closed");
    if (fd == 5) sock_open = false;
    --os_live;
    if (fd == 5 && close_may_fail && vf_bool()) { ++close_failures; errno = EIO; return -1; }
    return 0;
}
int vf_sys_fcntl(int fd, int cmd, long arg) { (void)fd; (void)cmd; (void)arg; return os_fails() ? -1 : 0; }
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n)
{ (void)fd; (void)l; (void)n; if (os_fails()) return -1; if (o == SO_TYPE) *(int*)v = SOCK_STREAM; else *(int*)v = 0; return 0; }

static rcpr_comparison_result cmp(void* c, const void* a, const void* b)
{ (void)c; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* key(void* c, const resource* r) { (void)c; return r; }
static status fiber_main(void* c) { (void)c; return STATUS_SUCCESS; }
static status disc_cb(void* c, fiber* f, int e, void* p) { (void)c; (void)f; (void)e; (void)p; return STATUS_SUCCESS; }
static const rcpr_uuid disc_id = { .data = { 1, 2, 3 } };
static unsigned user_released;
static status u_read(psock* s, void* c, void* d, size_t* n, bool b) { (void)s; (void)c; (void)d; (void)b; *n = 0; return 1; }
static status u_write(psock* s, void* c, const void* d, size_t* n) { (void)s; (void)c; (void)d; *n = 0; return 1; }
static status u_release(psock* s, void* c) { (void)s; (void)c; ++user_released; return STATUS_SUCCESS; }
#ifdef RCPR_VTABLE_RUNTIME_ENFORCEMENT
__attribute__((section("rcpr_vtable")))
#endif
static RCPR_SYM(psock_vtable) user_vt;   /* filled at run time: it must be copied or kept by the library */

static allocator* a;
static allocator* pa;      /* of what is handed to the constructor */
static fiber_scheduler* sched;
static psock* child;
static vf_res payload;
static bigint* big;
static fiber* fib;
static fiber_scheduler_discipline* pre;

static void prepare(void)
{
    switch (KIND)
    {
        case K_FIBER: case K_FIBER_THREAD: case K_MSGDISC: case K_CONDDISC:
            VF_ASSUME(fiber_scheduler_create_with_disciplines(&sched, pa) == STATUS_SUCCESS);
            break;
        case K_ADDFIBER:
            VF_ASSUME(fiber_scheduler_create_with_disciplines(&sched, pa) == STATUS_SUCCESS);
            VF_ASSUME(fiber_create(&fib, pa, sched, 16384, NULL, &fiber_main) == STATUS_SUCCESS);
            break;
        case K_MAILBOX:
            VF_ASSUME(fiber_scheduler_create_with_disciplines(&sched, pa) == STATUS_SUCCESS);
            VF_ASSUME(message_discipline_get_or_create(&pre, pa, sched) == STATUS_SUCCESS);
            break;
        case K_CONDITIONAL:
            VF_ASSUME(fiber_scheduler_create_with_disciplines(&sched, pa) == STATUS_SUCCESS);
            VF_ASSUME(condition_discipline_get_or_create(&pre, pa, sched) == STATUS_SUCCESS);
            break;
        case K_PSOCK_ASYNC:
            VF_ASSUME(fiber_scheduler_create_with_disciplines(&sched, pa) == STATUS_SUCCESS);
            VF_ASSUME(disciplined_fiber_scheduler_main_fiber_get(&fib, sched) == STATUS_SUCCESS);
            sock_open = true; ++os_live;
            VF_ASSUME(psock_create_from_descriptor(&child, pa, 5) == STATUS_SUCCESS);
            break;
        case K_PSOCK_BR:
            VF_ASSUME(psock_create_from_buffer(&child, pa, "abc", 3) == STATUS_SUCCESS);
            break;
        case K_PSOCK_DESC: sock_open = true; ++os_live; break;
        case K_BIGCLONE: VF_ASSUME(bigint_create_zero(&big, pa, 130) == STATUS_SUCCESS); break;
        case K_PSOCK_USER:
            user_vt.read_fn = &u_read; user_vt.write_fn = &u_write; user_vt.release_fn = &u_release;
            break;
        default: break;
    }
}

static void* out;
static status construct(void)
{
    static fiber_scheduler_discipline_callback_fn cbs[2] = { &disc_cb, &disc_cb };
    switch (KIND)
    {
        case K_LIST: return list_create((list**)&out, a);
        case K_SLIST: return slist_create((slist**)&out, a);
        case K_QUEUE: return queue_create((queue**)&out, a);
        case K_RBTREE: return rbtree_create((rbtree**)&out, a, &cmp, &key, NULL);
        case K_TRIGGER: return auto_reset_trigger_create((auto_reset_trigger**)&out, a);
        case K_BIGINT: return bigint_create_zero((bigint**)&out, a, 130);
        case K_BIGCLONE: return bigint_clone((bigint**)&out, a, big);
        case K_STACK: return stack_create((stack**)&out, a, 4096);
        case K_MUTEX: return thread_mutex_create((thread_mutex**)&out, a);
        case K_COND: return thread_cond_create((thread_cond**)&out, a);
        case K_THREAD: return thread_create((thread**)&out, a, 16384, NULL, &fiber_main);
        case K_FIBER: return fiber_create((fiber**)&out, a, sched, 4096, NULL, &fiber_main);
        case K_FIBER_THREAD: return fiber_create_for_thread((fiber**)&out, sched, a);
        case K_SCHED_DISC: return fiber_scheduler_create_with_disciplines((fiber_scheduler**)&out, a);
        case K_DISCIPLINE: return fiber_scheduler_discipline_create((fiber_scheduler_discipline**)&out, &disc_id, a, NULL, 2, cbs);
        case K_MESSAGE: return message_create((message**)&out, a, 12, &payload.hdr);
        case K_MSGDISC: return message_discipline_get_or_create((fiber_scheduler_discipline**)&out, a, sched);
        case K_CONDDISC: return condition_discipline_get_or_create((fiber_scheduler_discipline**)&out, a, sched);
        case K_PSOCK_DESC: return psock_create_from_descriptor((psock**)&out, a, 5);
        case K_PSOCK_BUF: return psock_create_from_buffer((psock**)&out, a, "hello", 5);
        case K_PSOCK_OUT: return psock_create_from_buffer((psock**)&out, a, NULL, 0);
        case K_PSOCK_USER: return psock_create_from_user_methods((psock**)&out, a, NULL, &user_vt);
        case K_PSOCK_ASYNC: return psock_create_wrap_async((psock**)&out, a, fib, child);
        case K_PSOCK_BR: return psock_br_create_from_psock((psock_br**)&out, a, child);
        case K_MAILBOX: return mailbox_create((mailbox_address*)&out, pre);
        case K_CONDITIONAL: return conditional_create((conditional*)&out, pre);
        case K_ADDFIBER: out = &fib; return fiber_scheduler_add(sched, fib);
        default: return 1;
    }
}
static resource* handle(void)
{
    switch (KIND)
    {
        case K_LIST: return list_resource_handle(out);
        case K_SLIST: return slist_resource_handle(out);
        case K_QUEUE: return queue_resource_handle(out);
        case K_RBTREE: return rbtree_resource_handle(out);
        case K_TRIGGER: return auto_reset_trigger_resource_handle(out);
        case K_BIGINT: case K_BIGCLONE: return bigint_resource_handle(out);
        case K_STACK: return stack_resource_handle(out);
        case K_MUTEX: return thread_mutex_resource_handle(out);
        case K_COND: return thread_cond_resource_handle(out);
        case K_THREAD: return thread_resource_handle(out);
        case K_FIBER: case K_FIBER_THREAD: return fiber_resource_handle(out);
        case K_SCHED_DISC: return fiber_scheduler_resource_handle(out);
        case K_DISCIPLINE: return fiber_scheduler_discipline_resource_handle(out);
        case K_MESSAGE: return message_resource_handle(out);
        case K_PSOCK_BR: return psock_br_resource_handle(out);
        case K_PSOCK_DESC: case K_PSOCK_BUF: case K_PSOCK_OUT: case K_PSOCK_USER: case K_PSOCK_ASYNC: return psock_resource_handle(out);
        default: return NULL;   /* owned by the scheduler */
    }
}
#define OWNED_CHILD (KIND == K_PSOCK_ASYNC || KIND == K_PSOCK_BR)

/* the resources handed to the constructor still belong to the caller. */
static void release_inputs(void)
{
    if (child) VF_ASSERT(resource_release(psock_resource_handle(child)) == STATUS_SUCCESS, "the caller's socket is released once");
    if (KIND == K_MESSAGE) { VF_ASSERT(payload.released == 0, "the payload still belongs to the caller"); }
    if (KIND == K_ADDFIBER) VF_ASSERT(resource_release(fiber_resource_handle(fib)) == STATUS_SUCCESS, "the caller's fiber is released once");
    if (KIND == K_PSOCK_DESC) { VF_ASSERT(sock_open, "the descriptor still belongs to the caller"); --os_live; sock_open = false; }
    if (KIND == K_PSOCK_USER) VF_ASSERT(user_released == 0, "the user's context still belongs to the caller");
}
static void finish(void)
{
    if (KIND == K_BIGCLONE) VF_ASSERT(resource_release(bigint_resource_handle(big)) == STATUS_SUCCESS, "release succeeds");
    if (sched) VF_ASSERT(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "releasing the scheduler succeeds");
    VF_ASSERT(vf_live == 0 && vf_live2 == 0, "every block drawn has been reclaimed, each by its own allocator");
    VF_ASSERT(os_live == 0, "every system resource drawn has been given back");
}
#ifdef REL
#include "rel.h"
#else
void vf_main(void)
{
    a = vf_allocator_get(); pa = vf_allocator_get2();
    vf_res_init(&payload);
    unsigned clean_live = 0; int clean_os = 0;
    if (KIND == K_PSOCK_ASYNC)
    {
        /* what a construction that meets no failure draws. */
        prepare();
        clean_live = vf_live; clean_os = os_live;
        VF_ASSERT(construct() == STATUS_SUCCESS, "construction succeeds when memory is available");
        clean_live = vf_live - clean_live; clean_os = os_live - clean_os;
        VF_ASSERT(resource_release(handle()) == STATUS_SUCCESS, "release succeeds");
        finish();
        sched = NULL;
    }
    prepare();
    unsigned live = vf_live, live2 = vf_live2; int os = os_live;
    vf_may_fail = true; os_may_fail = OSFAIL;
#ifdef NULLOUT
    out = &payload;         /* whatever was there */
#endif
    status s = construct();
    vf_may_fail = os_may_fail = false;
    if (s != STATUS_SUCCESS)
    {
#ifdef NULLOUT
        VF_ASSERT(out == NULL, "a failed construction gives nothing out");
#endif
        VF_ASSERT(vf_failures + os_failures > 0, "construction fails only when an allocation or a system call failed");
        VF_ASSERT(s == ERROR_GENERAL_OUT_OF_MEMORY || os_failures > 0, "the failure is reported as out of memory");
        if (os_failures > 0) VF_REACH("system call failed");
        if (KIND != K_PSOCK_ASYNC)
            VF_ASSERT(vf_live == live && vf_live2 == live2 && os_live == os, "a failed construction keeps nothing");
        VF_REACH("failed");
        if (vf_bool())
        {
            /* nothing of the failed attempt may stand in the way of another. */
            VF_ASSERT(construct() == STATUS_SUCCESS, "the construction succeeds when repeated with memory available");
            if (KIND == K_PSOCK_ASYNC)
                VF_ASSERT(vf_live - live == clean_live && os_live - os == clean_os, "what a repeated construction built is complete");
            VF_REACH("repeated");
        }
        else
        {
            release_inputs();
            finish();
            return;
        }
    }
    else
    {
        VF_ASSERT(vf_failures + os_failures == 0, "a construction whose allocation failed does not report success");
        VF_REACH("constructed");
    }
    if (KIND == K_MAILBOX || KIND == K_CONDITIONAL) VF_ASSERT(out != NULL, "a handle is given out");
    if (KIND == K_PSOCK_BR) VF_ASSERT(resource_release(handle()) == STATUS_SUCCESS && resource_release(psock_resource_handle(child)) == STATUS_SUCCESS, "release succeeds");
    else if (handle())
    {
        VF_ASSERT(resource_release(handle()) == STATUS_SUCCESS, "release succeeds");
        if (KIND == K_MESSAGE) VF_ASSERT(payload.released == 1, "the payload is released with its message");
        if (KIND == K_PSOCK_USER) VF_ASSERT(user_released == 1, "the user's release is called once");
        if (KIND == K_PSOCK_DESC || KIND == K_PSOCK_ASYNC) VF_ASSERT(!sock_open, "the descriptor is closed with its socket");
        if (!sched) VF_ASSERT(vf_live == live, "release returns every block");
    }
    finish();
    VF_REACH("released");
}
#endif
