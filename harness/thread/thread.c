/* Threads, mutexes and condition variables with every system step failing or
 * not.  KIND 0: thread, 1: mutex and lock, 2: condition variable. */
#include "../vf_alloc.h"
#include "../vf_sys.h"
#include <errno.h>
#include <rcpr/thread.h>
RCPR_IMPORT_thread;
static int attrs, mutexes, conds, threads, failures;
static bool may_fail = true;
static void* m_addr; static void* c_addr;
static bool held;
static unsigned locks, unlocks, waits, ones, alls, joins;
static void* (*t_fn)(void*); static void* t_arg; static bool t_started;
static size_t want_stack; static bool got_stack;
static unsigned entered;
static status exit_code;
static int ctx_marker;
static int fails(void)
{
    if (may_fail && vf_bool()) { ++failures; int e = vf_i32(); VF_ASSUME(e > 0); return e; }
    return 0;
}
static status entry(void* c)
{
    VF_ASSERT(c == &ctx_marker, "the thread gets the caller's context");
    ++entered;
    return exit_code;
}
int vf_sys_pthread_attr_init(void* a) { (void)a; int e = fails(); if (!e) ++attrs; return e; }
int vf_sys_pthread_attr_setstacksize(void* a, size_t n)
{ (void)a; VF_ASSERT(n == want_stack, "the stack has the size asked for"); int e = fails(); if (!e) got_stack = true; return e; }
int vf_sys_pthread_attr_destroy(void* a) { (void)a; VF_ASSERT(attrs == 1, "the attributes are destroyed once"); --attrs; return 0; }
static void run_thread(void) { if (!t_started) { t_started = true; t_fn(t_arg); } }
int vf_sys_pthread_create(unsigned long* t, const void* a, void* (*f)(void*), void* c)
{
    VF_ASSERT(a == NULL ? false : attrs == 1 && got_stack, "the thread is created with its attributes");
    int e = fails();
    if (e) return e;
    *t = 0x77; t_fn = f; t_arg = c; ++threads;
    if (vf_bool()) { VF_REACH("runs at once"); run_thread(); }
    return 0;
}
int vf_sys_pthread_join(unsigned long t, void** r)
{
    VF_ASSERT(t == 0x77 && threads == 1, "the running thread is joined once");
    int e = fails();
    if (e) return e;
    run_thread();
    if (r) *r = NULL;
    --threads; ++joins;
    return 0;
}
int vf_sys_pthread_detach(unsigned long t) { (void)t; VF_ASSERT(0, "the thread is not detached"); return 0; }
int vf_sys_pthread_mutex_init(void* m, const void* a) { (void)a; int e = fails(); if (!e) { m_addr = m; ++mutexes; } return e; }
int vf_sys_pthread_mutex_destroy(void* m)
{ VF_ASSERT(m == m_addr && mutexes == 1, "the mutex is destroyed once"); VF_ASSERT(!held, "it is not destroyed while held"); int e = fails(); if (!e) --mutexes; return e; }
int vf_sys_pthread_mutex_lock(void* m)
{ VF_ASSERT(m == m_addr, "the right mutex is locked"); int e = fails(); if (!e) { VF_ASSERT(!held, "no deadlock"); held = true; ++locks; } return e; }
int vf_sys_pthread_mutex_unlock(void* m)
{ VF_ASSERT(m == m_addr && held, "the held mutex is unlocked"); int e = fails(); if (!e) { held = false; ++unlocks; } return e; }
int vf_sys_pthread_cond_init(void* c, const void* a) { (void)a; int e = fails(); if (!e) { c_addr = c; ++conds; } return e; }
int vf_sys_pthread_cond_destroy(void* c)
{ VF_ASSERT(c == c_addr && conds == 1, "the condition is destroyed once"); int e = fails(); if (!e) --conds; return e; }
int vf_sys_pthread_cond_wait(void* c, void* m)
{ VF_ASSERT(c == c_addr && m == m_addr && held, "it waits on the given condition with the held mutex"); int e = fails(); if (!e) ++waits; return e; }
int vf_sys_pthread_cond_signal(void* c) { VF_ASSERT(c == c_addr, "the given condition is signaled"); int e = fails(); if (!e) ++ones; return e; }
int vf_sys_pthread_cond_broadcast(void* c) { VF_ASSERT(c == c_addr, "the given condition is signaled"); int e = fails(); if (!e) ++alls; return e; }

static void step(status s, int before, const char* what)
{
    (void)what;
    VF_ASSERT((s == STATUS_SUCCESS) == (failures == before), "a system failure is reported, and nothing else is");
}
#ifdef NULLOUT      /* A06: whatever was there, a failure leaves NULL */
static char junk;
#define BEFORE (void*)&junk
#define NONE(p) VF_ASSERT((p) == NULL, "a failure gives nothing out")
#else
#define BEFORE NULL
#define NONE(p) (void)0
#endif
void vf_main(void)
{
    allocator* a = vf_allocator_get();
    vf_may_fail = true;
    int f0 = failures;
    status s;
    if (KIND == 0)
    {
        thread* t = BEFORE;
        want_stack = vf_u64();
        exit_code = vf_i32();
        s = thread_create(&t, a, want_stack, &ctx_marker, &entry);
        vf_may_fail = false;
        VF_ASSERT(attrs == 0, "the attributes are always destroyed");
        VF_ASSERT((s == STATUS_SUCCESS) == (failures == 0 && vf_failures == 0), "success exactly when no step failed");
        if (s != STATUS_SUCCESS)
        {
            VF_ASSERT(vf_live == 0 && threads == 0 && entered == 0, "a failed creation keeps nothing and starts nothing");
            NONE(t);
            VF_REACH("thread failed");
            return;
        }
        VF_ASSERT(t != NULL && threads == 1, "the thread runs");
        f0 = failures;
        s = resource_release(thread_resource_handle(t));
        if (failures > f0) { VF_ASSERT(s == ERROR_THREAD_JOIN, "a failed join is reported"); VF_REACH("join failed"); }
        else
        {
            VF_ASSERT(joins == 1 && entered == 1, "the thread ran once and was joined once");
            VF_ASSERT(s == exit_code, "the thread's own status is given back");
            VF_REACH("joined");
        }
        VF_ASSERT(vf_live == 0, "every block drawn has been reclaimed");
        return;
    }
    thread_mutex* m = BEFORE; thread_cond* c = KIND == 2 ? BEFORE : NULL; thread_mutex_lock* l = BEFORE;
    s = thread_mutex_create(&m, a);
    VF_ASSERT((s == STATUS_SUCCESS) == (failures == 0 && vf_failures == 0), "success exactly when no step failed");
    if (s != STATUS_SUCCESS)
    {
        VF_ASSERT(vf_live == 0 && mutexes == 0, "a failed creation keeps nothing");
        NONE(m);
        VF_REACH("mutex failed");
        return;
    }
    if (KIND == 2)
    {
        may_fail = vf_bool();
        s = thread_cond_create(&c, a);
        VF_ASSERT((s == STATUS_SUCCESS) == (failures == 0 && vf_failures == 0), "success exactly when no step failed");
        if (s != STATUS_SUCCESS)
        {
            VF_ASSERT(vf_live == 1 && conds == 0, "a failed creation keeps nothing");
            NONE(c);
            VF_REACH("condition failed");
            may_fail = false;
            VF_ASSERT(resource_release(thread_mutex_resource_handle(m)) == STATUS_SUCCESS && vf_live == 0, "the mutex is released");
            return;
        }
        may_fail = true;
    }
    vf_may_fail = false;
    f0 = failures; s = thread_mutex_lock_acquire(&l, m); step(s, f0, "lock");
    VF_ASSERT(held == (s == STATUS_SUCCESS), "a lock is given out exactly when it is held");
    if (s != STATUS_SUCCESS) NONE(l);
    if (s == STATUS_SUCCESS)
    {
        VF_ASSERT(l != NULL, "the lock is given out");
        if (KIND == 2)
        {
            switch (vf_below(3))
            {
                case 0:
                    f0 = failures; s = thread_cond_wait(&l, c); step(s, f0, "wait");
                    VF_ASSERT(waits == (s == STATUS_SUCCESS) && ones + alls == 0, "it waits once");
                    VF_ASSERT(l != NULL && held, "the caller still holds the lock");
                    VF_REACH("wait");
                    break;
                case 1:
                    f0 = failures; s = thread_cond_signal_one(l, c); step(s, f0, "signal");
                    VF_ASSERT(ones == (s == STATUS_SUCCESS) && alls + waits == 0, "one is signaled");
                    VF_REACH("one");
                    break;
                default:
                    f0 = failures; s = thread_cond_signal_all(l, c); step(s, f0, "broadcast");
                    VF_ASSERT(alls == (s == STATUS_SUCCESS) && ones + waits == 0, "all are signaled");
                    VF_REACH("all");
                    break;
            }
            VF_ASSERT(held && unlocks == 0, "the lock is still held");
        }
        f0 = failures; s = resource_release(thread_mutex_lock_resource_handle(l)); step(s, f0, "unlock");
        VF_ASSERT(held == (s != STATUS_SUCCESS) && unlocks == !held, "releasing the lock unlocks the mutex once");
        if (held) { VF_REACH("unlock failed"); return; }
        VF_REACH("locked and unlocked");
        /* it can be taken again. */
        may_fail = false;
        VF_ASSERT(thread_mutex_lock_acquire(&l, m) == STATUS_SUCCESS && held, "it can be locked again");
        VF_ASSERT(resource_release(thread_mutex_lock_resource_handle(l)) == STATUS_SUCCESS && !held, "and unlocked");
        may_fail = true;
    }
    if (c)
    {
        f0 = failures; s = resource_release(thread_cond_resource_handle(c)); step(s, f0, "cond release");
        VF_ASSERT(vf_live == 1, "the condition's block is reclaimed");
    }
    f0 = failures; s = resource_release(thread_mutex_resource_handle(m)); step(s, f0, "mutex release");
    VF_ASSERT(vf_live == 0, "every block drawn has been reclaimed");
    VF_REACH("released");
}
