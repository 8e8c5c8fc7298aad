/* M01, M02: many messages and many mailboxes.  MODE 0: COUNT messages through
 * one mailbox, from several fibers, received as they come.  MODE 1: COUNT
 * mailboxes with a waiting receiver each.  MODE 2: COUNT messages are left. */
#ifndef COUNT
#define COUNT 300
#endif
#if MODE == 1
#define MAXMAP (COUNT + 4)
#endif
#include "../fiber/env.h"
#include "../psock/step.h"
#include "../vf_res.h"
#include <rcpr/message.h>
RCPR_IMPORT_message;
static fiber_scheduler_discipline* md;
static vf_res pay[COUNT + 2]; static mailbox_address box[COUNT + 1];
static int sent, got, ahead, waits; static int ctx[COUNT]; static int outcome[COUNT]; static bool batch;
static void let_run(void) { VF_ASSERT(fiber_scheduler_run(sched) == STATUS_SUCCESS, "the fibers run"); }
static void send_(mailbox_address to, mailbox_address from)
{
    message* m = NULL;
    vf_res_init(&pay[sent]);
    VF_ASSERT(message_create(&m, vf_allocator_get(), from, &pay[sent].hdr) == STATUS_SUCCESS, "a message is made");
    ++sent;
    VF_ASSERT(message_send(to, m, md) == STATUS_SUCCESS, "a message to an open mailbox is accepted");
}
static status receive_(mailbox_address at, vf_res* want, mailbox_address from)
{
    message* m = NULL;
    status st = message_receive(at, &m, md);
    if (st != STATUS_SUCCESS) return st;
    VF_ASSERT(message_payload(m, false) == &want->hdr && message_return_address(m) == from, "the messages of a mailbox arrive in the order sent");
    VF_ASSERT(want->released == 0 && resource_release(message_resource_handle(m)) == STATUS_SUCCESS && want->released == 1, "a message is released with its payload, once");
    return STATUS_SUCCESS;
}
static status reader(void* c)
{
    (void)c;
    for (;;)
    {
        if (ahead == 0) ++waits;
        if (receive_(box[0], &pay[got], (mailbox_address)got + 7) != STATUS_SUCCESS) { outcome[0] = 2; return 0; }
        ++got;
        ahead = sent - got;
    }
}
static status receiver(void* c)
{
    int k = (int)((int*)c - ctx);
    message* m = NULL;
    status st = message_receive(box[k], &m, md);
    outcome[k] = st == STATUS_SUCCESS ? 1 : 2;
    if (st == STATUS_SUCCESS)
    {
        VF_ASSERT(message_return_address(m) == (mailbox_address)k + 7, "a message arrives at its own mailbox");
        VF_ASSERT(resource_release(message_resource_handle(m)) == STATUS_SUCCESS, "a message is released");
    }
    return 0;
}
void vf_main(void)
{
    vf_may_fail = false;
    sched_make();
    VF_ASSERT(message_discipline_get_or_create(&md, vf_allocator_get(), sched) == STATUS_SUCCESS, "the discipline is made");
    for (int i = 0; i < (MODE == 1 ? COUNT : 2); ++i)
    {
        VF_ASSERT(mailbox_create(&box[i], md) == STATUS_SUCCESS && box[i] != 0, "a mailbox is made");
        for (int j = 0; j < i; ++j) VF_ASSERT(box[j] != box[i], "open mailboxes have distinct addresses");
    }
    fiber* f;
    if (MODE == 1)
    {
        for (int k = 0; k < COUNT; ++k)
            VF_ASSERT(fiber_create(&f, vf_allocator_get(), sched, 4096, &ctx[k], &receiver) == STATUS_SUCCESS
                && fiber_scheduler_add(sched, f) == STATUS_SUCCESS, "a fiber is added");
        let_run();
        static const int at[] = { 0, 1, COUNT / 2, 255, 256, COUNT - 1 };
        int w = at[step_len(6)], x = at[step_len(6)];
        send_(box[w], (mailbox_address)w + 7);
        let_run();
        for (int k = 0; k < COUNT; ++k) VF_ASSERT(outcome[k] == (k == w), "only the receiver of the mailbox gets the message");
        VF_ASSERT(mailbox_close(box[x], md) == STATUS_SUCCESS, "an open mailbox is closed");
        let_run();
        for (int k = 0; k < COUNT; ++k) VF_ASSERT(outcome[k] == (k == w ? 1 : k == x ? 2 : 0), "only the receiver of the closed mailbox fails");
        message* m = NULL;
        vf_res_init(&pay[sent]);
        VF_ASSERT(message_create(&m, vf_allocator_get(), 1, &pay[sent].hdr) == STATUS_SUCCESS, "a message is made");
        VF_ASSERT(message_send(box[x], m, md) != STATUS_SUCCESS && pay[sent].released == 0, "nothing is accepted for a closed mailbox");
        VF_ASSERT(resource_release(message_resource_handle(m)) == STATUS_SUCCESS, "a message is released");
        ++sent;
        for (int k = 0; k < COUNT; ++k) if (k != x && k != w) send_(box[k], (mailbox_address)k + 7);
        let_run();
        for (int k = 0; k < COUNT; ++k) VF_ASSERT(outcome[k] == (k == x && k != w ? 2 : 1), "every other mailbox is still there");
        VF_REACH("one each");
    }
    else
    {
        static const int first[] = { 0, 1, 200, COUNT };
        int a = first[step_len(4)];
        batch = vf_bool();
        if (batch) VF_ASSUME(1);
        for (int i = 0; i < a; ++i) send_(box[0], (mailbox_address)i + 7);
        send_(box[1], 5);
        int other = sent - 1;
        if (MODE == 0)
        {
            /* the other mailbox's message is kept at the end of the payloads. */
            VF_ASSERT(receive_(box[1], &pay[other], 5) == STATUS_SUCCESS, "a message is received");
            sent = other;
            ahead = a;
            VF_ASSERT(fiber_create(&f, vf_allocator_get(), sched, 4096, &ctx[0], &reader) == STATUS_SUCCESS
                && fiber_scheduler_add(sched, f) == STATUS_SUCCESS, "a fiber is added");
            let_run();
            VF_ASSERT(got == a, "every message sent is received");
            while (sent < COUNT)
            {
                send_(box[0], (mailbox_address)sent + 7);
                if (!batch || sent % 7 == 0) { ahead = 0; let_run(); VF_ASSERT(got == sent, "every message sent is received"); }
            }
            let_run();
            VF_ASSERT(got == COUNT && outcome[0] == 0, "every message sent is received");
            VF_REACH("in order");
        }
        bool close = vf_bool();
        if (close) VF_ASSERT(mailbox_close(box[0], md) == STATUS_SUCCESS, "an open mailbox is closed");
        let_run();
        if (MODE == 0) VF_ASSERT(outcome[0] == (close ? 2 : 0), "the receiver fails when its mailbox is closed");
        else
        {
            for (int i = 0; i < a; ++i) VF_ASSERT(pay[i].released == close, "the messages of a closed mailbox are released once");
            VF_ASSERT(pay[other].released == 0, "and no other");
        }
    }
    sched_drop();
    for (int i = 0; i < sent; ++i) VF_ASSERT(pay[i].released == 1, "every payload is released once");
    VF_REACH("end");
}
