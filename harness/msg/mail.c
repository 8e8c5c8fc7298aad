/* M01, M02: mailboxes.  N fibers each take up to STEPS steps: send to, receive
 * from, close or create a mailbox, or let the others run; the main fiber runs
 * them, and with INT may interrupt one that is blocked.  BOXES mailboxes are
 * there from the start. */
#include "../fiber/env.h"
#include "../vf_res.h"
#include <rcpr/message.h>
RCPR_IMPORT_message;
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef BOXES
#define BOXES 1
#endif
#ifndef CREATE
#define CREATE 0
#endif
#ifndef CLOSE
#define CLOSE 1
#endif
#ifndef ANY
#define ANY 0
#endif
#ifndef INT
#define INT 0
#endif
#ifndef FAILS
#define FAILS 0
#endif
enum { MSGS = N * STEPS + 1, MAXB = BOXES + CREATE * N * STEPS, PENDING = -1, CLOSED = -2, INTERRUPTED = -3 };
typedef struct box { bool open; mailbox_address addr; int q[MSGS]; int n; int blocked; } box;
static box boxes[MAXB]; static int nboxes;
static vf_res pay[MSGS]; static mailbox_address ret[MSGS]; static bool fresh[MSGS], queued[MSGS], dead[MSGS]; static int nmsg;
static fiber* fibs[N]; static int ctx[N]; static int outcome[N]; static bool blocked[N], done[N];
static fiber_scheduler_discipline* msgdisc;
static bool failed(int f) { return vf_failures > f; }
/* a failure says which: no memory, or no such mailbox */
static bool why(status st, int f, bool unknown) { return (failed(f) && st == ERROR_GENERAL_OUT_OF_MEMORY) || (unknown && st == ERROR_RBTREE_NOT_FOUND); }
static void discard(message* m, int i)
{
    VF_ASSERT(message_payload(m, false) == &pay[i].hdr, "a message keeps its payload");
    VF_ASSERT(message_return_address(m) == ret[i], "and its return address");
    VF_ASSERT(pay[i].released == 0, "which is not released before the message");
    if (vf_bool())
    {
        VF_ASSUME(1);
        resource* r = message_payload(m, true);
        VF_ASSERT(r == &pay[i].hdr && message_payload(m, false) == NULL, "a payload is taken out once");
        VF_ASSERT(resource_release(message_resource_handle(m)) == STATUS_SUCCESS && pay[i].released == 0, "a payload taken out is the taker's");
        VF_ASSERT(resource_release(r) == STATUS_SUCCESS, "and released by it");
        VF_REACH("payload taken");
    }
    else VF_ASSERT(resource_release(message_resource_handle(m)) == STATUS_SUCCESS, "a message is released");
    VF_ASSERT(pay[i].released == 1, "with its payload, once");
    dead[i] = true;
}
static void do_create(void)
{
    VF_ASSERT(nboxes < MAXB, "harness: room");
    mailbox_address a = 0;
    int f = vf_failures;
    status st = mailbox_create(&a, msgdisc);
    vf_may_fail = false;
    if (st != STATUS_SUCCESS) { VF_ASSERT(why(st, f, false), "a failure tells its cause"); VF_REACH("create failed"); return; }
    VF_ASSERT(a != 0, "an address is never zero");
    for (int i = 0; i < nboxes; ++i) VF_ASSERT(!boxes[i].open || boxes[i].addr != a, "open mailboxes have distinct addresses");
    boxes[nboxes].open = true; boxes[nboxes].addr = a; boxes[nboxes].blocked = -1;
    ++nboxes;
    VF_REACH("created");
}
/* a mailbox, or none and any address that is not one's. */
static box* some_box(mailbox_address* a)
{
    int b = (int)vf_below(nboxes + ANY);
    for (int i = 0; i < nboxes + ANY; ++i) if (b == i) VF_ASSUME(1);
    if (b < nboxes) { *a = boxes[b].addr; return boxes[b].open ? &boxes[b] : NULL; }
    *a = vf_u64();
    VF_ASSUME(*a != 0);
    for (int i = 0; i < nboxes; ++i) VF_ASSUME(*a != boxes[i].addr);
    return NULL;
}
static void do_send(void)
{
    mailbox_address a; box* b = some_box(&a);
    int i = nmsg++;
    VF_ASSERT(i < MSGS, "harness: room");
    vf_res_init(&pay[i]);
    ret[i] = vf_u64();
    message* m = NULL;
    int f = vf_failures;
    if (message_create(&m, vf_allocator_get(), ret[i], &pay[i].hdr) != STATUS_SUCCESS)
    {
        VF_ASSERT(failed(f) && pay[i].released == 0, "a payload stays with the caller when no message is made of it");
        vf_may_fail = false;
        dead[i] = true; pay[i].released = 1;
        VF_REACH("message failed");
        return;
    }
    int to = -1;
    if (b)
    {
        queued[i] = true;
        if (b->blocked >= 0) { to = b->blocked; VF_ASSERT(outcome[to] == PENDING, "harness: outcome"); outcome[to] = i; b->blocked = -1; }
        else b->q[b->n++] = i;
    }
    f = vf_failures;
    status st = message_send(a, m, msgdisc);
    vf_may_fail = false;
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(b != NULL, "no message is accepted for an unknown or closed mailbox");
        if (to >= 0) VF_REACH("sent to a waiting receiver"); else VF_REACH("sent ahead");
        return;
    }
    VF_ASSERT(why(st, f, b == NULL), "a failure tells its cause");
    if (b)
    {
        VF_REACH("send failed");
        if (to >= 0) { VF_ASSERT(outcome[to] == i && blocked[to], "a message not sent is not received"); outcome[to] = PENDING; b->blocked = to; }
        else { VF_ASSERT(b->n > 0 && b->q[b->n - 1] == i, "a message not sent is not received"); --b->n; }
        queued[i] = false;
    }
    else VF_REACH("rejected");
    discard(m, i);
}
static void do_receive(int id)
{
    mailbox_address a; box* b = some_box(&a);
    message* m = NULL;
    int want = PENDING; bool busy = false;
    if (b)
    {
        if (b->n > 0) { want = b->q[0]; --b->n; for (int k = 0; k < b->n; ++k) b->q[k] = b->q[k + 1]; }
        else if (b->blocked >= 0) busy = true;
        else { b->blocked = id; blocked[id] = true; outcome[id] = PENDING; }
    }
    int f = vf_failures;
    status st = message_receive(a, &m, msgdisc);
    vf_may_fail = false;
    if (b == NULL) { VF_ASSERT(why(st, f, true), "nothing is received from an unknown or closed mailbox"); VF_REACH("no such mailbox"); return; }
    if (busy) { VF_ASSERT(st == ERROR_MESSAGE_ALREADY_BLOCKED || why(st, f, false), "one fiber at a time waits on a mailbox"); VF_REACH("already blocked"); return; }
    if (blocked[id])
    {
        blocked[id] = false;
        want = outcome[id];
        VF_ASSERT(want != PENDING, "a receiver waits until something happens to its mailbox");
        if (want == CLOSED) { VF_ASSERT(st != STATUS_SUCCESS, "a receiver fails when its mailbox is closed"); VF_REACH("closed under a receiver"); return; }
        if (want == INTERRUPTED) { VF_ASSERT(st != STATUS_SUCCESS, "an interrupted receiver fails"); VF_REACH("interrupted"); return; }
        VF_REACH("received after waiting");
    }
    else if (st != STATUS_SUCCESS)
    {
        VF_ASSERT(why(st, f, false), "a failure tells its cause");
        VF_REACH("receive failed");
        /* the message must still be there. */
        for (int k = b->n; k > 0; --k) b->q[k] = b->q[k - 1];
        b->q[0] = want; ++b->n;
        return;
    }
    else VF_REACH("received at once");
    VF_ASSERT(st == STATUS_SUCCESS && m != NULL, "a message is received");
    VF_ASSERT(want >= 0 && message_payload(m, false) == &pay[want].hdr, "the messages of a mailbox arrive in the order sent");
    VF_ASSERT(queued[want], "and once");
    queued[want] = false;
    discard(m, want);
}
static void do_close(void)
{
    mailbox_address a; box* b = some_box(&a);
    int n = 0, q[MSGS];
    if (b)
    {
        b->open = false;
        n = b->n;
        for (int k = 0; k < n; ++k) q[k] = b->q[k];
        if (b->blocked >= 0) { outcome[b->blocked] = CLOSED; b->blocked = -1; VF_REACH("closed with a receiver"); }
    }
    int f = vf_failures;
    status st = mailbox_close(a, msgdisc);
    vf_may_fail = false;
    VF_ASSERT(b != NULL || why(st, f, true), "only an open mailbox is closed");
    if (b && st != STATUS_SUCCESS)
    {
        VF_ASSERT(why(st, f, false), "a failure tells its cause");
        VF_REACH("close failed");
        /* open as before, or closed: either way it can be done with. */
        st = mailbox_close(a, msgdisc);
    }
    for (int k = 0; k < n; ++k)
    {
        VF_ASSERT(pay[q[k]].released == 1, "the messages of a closed mailbox are released once");
        queued[q[k]] = false; dead[q[k]] = true;
        VF_REACH("closed with messages");
    }
}
static status body(void* c)
{
    int id = (int)((int*)c - ctx);
    for (int s = 0; s < STEPS; ++s)
    {
        unsigned k = vf_below(3 + CLOSE + CREATE);
        vf_may_fail = FAILS;
        if (k == 0) { VF_ASSUME(1); do_send(); }
        else if (k == 1) { VF_ASSUME(1); do_receive(id); }
        else if (k == 2)
        {
            VF_ASSUME(1);
            vf_may_fail = false;
            VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "a fiber lets the others run");
        }
        else if (CLOSE && k == 3) { VF_ASSUME(1); do_close(); }
        else { VF_ASSUME(1); do_create(); }
        vf_may_fail = false;
    }
    done[id] = true;
    return 0;
}
static void run_all(void)
{
    for (int k = 0; k < N * STEPS + 1; ++k) { vf_may_fail = false; VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run"); }
    vf_may_fail = false;
    for (int i = 0; i < N; ++i)
        VF_ASSERT(done[i] || (blocked[i] && outcome[i] == PENDING), "no receiver is left waiting for what has happened");
}
void vf_main(void)
{
    vf_may_fail = false; vf_max_failures = 1;
    sched_make();
    vf_may_fail = FAILS;
    int f = vf_failures;
    status st = message_discipline_get_or_create(&msgdisc, vf_allocator_get(), sched);
    vf_may_fail = false;
    if (st != STATUS_SUCCESS) { VF_ASSERT(vf_failures > f, "a failure has a cause"); VF_REACH("no discipline"); sched_drop(); return; }
    fiber_scheduler_discipline* again = NULL;
    VF_ASSERT(message_discipline_get_or_create(&again, vf_allocator_get(), sched) == STATUS_SUCCESS && again == msgdisc, "there is one discipline");
    for (int i = 0; i < BOXES; ++i) do_create();
    for (int i = 0; i < N; ++i)
        VF_ASSERT(fiber_create(&fibs[i], vf_allocator_get(), sched, 4096, &ctx[i], &body) == STATUS_SUCCESS
            && fiber_scheduler_add(sched, fibs[i]) == STATUS_SUCCESS, "a fiber is added");
    for (int r = 0; r < INT; ++r)
    {
        run_all();
        for (int i = 0; i < N; ++i) if (blocked[i] && outcome[i] == PENDING && vf_bool())
        {
            VF_ASSUME(1);
            for (int b = 0; b < nboxes; ++b) if (boxes[b].blocked == i) boxes[b].blocked = -1;
            outcome[i] = INTERRUPTED;
            vf_may_fail = false;
            VF_ASSERT(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(sched, fibs[i]) == STATUS_SUCCESS, "a fiber is interrupted");
        }
    }
    run_all();
    sched_drop();
    for (int i = 0; i < nmsg; ++i)
    {
        VF_ASSERT(pay[i].released == 1, "every payload is released once");
        VF_ASSERT(dead[i] || queued[i], "harness: accounted for");
        if (!dead[i]) VF_REACH("released with the scheduler");
    }
    VF_REACH("end");
}
