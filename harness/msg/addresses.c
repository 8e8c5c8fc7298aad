/* M01, C01: more mailboxes (KIND 0) or conditions (KIND 1) made and closed
 * than sixteen bits count, while two stay open. */
#include "../fiber/env.h"
#include "../vf_res.h"
#include <rcpr/message.h>
#include <rcpr/condition.h>
RCPR_IMPORT_message;
RCPR_IMPORT_condition;
#ifndef COUNT
#define COUNT 66000
#endif
#if KIND == 0
#define make(a) mailbox_create(a, d)
#define end(a) mailbox_close(a, d)
typedef mailbox_address address;
#else
#define make(a) conditional_create(a, d)
#define end(a) conditional_close(a, d)
typedef conditional address;
#endif
static fiber_scheduler_discipline* d;
static vf_res pay;
void vf_main(void)
{
    address first = 0, second = 0, a;
    vf_may_fail = false;
    sched_make();
#if KIND == 0
    VF_ASSERT(message_discipline_get_or_create(&d, vf_allocator_get(), sched) == STATUS_SUCCESS, "the discipline is made");
#else
    VF_ASSERT(condition_discipline_get_or_create(&d, vf_allocator_get(), sched) == STATUS_SUCCESS, "the discipline is made");
#endif
    /* the second one is made early or late. */
    bool late = vf_bool();
    if (late) VF_ASSUME(1);
    VF_ASSERT(make(&first) == STATUS_SUCCESS && first != 0, "one is made");
    for (unsigned i = 0; i < COUNT; ++i)
    {
        if (i == (late ? 65000 : 0)) VF_ASSERT(make(&second) == STATUS_SUCCESS && second != 0 && second != first, "another is made");
        a = 0;
        VF_ASSERT(make(&a) == STATUS_SUCCESS && a != 0, "one more is made");
        VF_ASSERT(a != first && a != second, "open ones have addresses of their own");
        VF_ASSERT(end(a) == STATUS_SUCCESS, "it is closed");
    }
    VF_REACH("many");
#if KIND == 0
    message* m = NULL;
    vf_res_init(&pay);
    VF_ASSERT(message_create(&m, vf_allocator_get(), 3, &pay.hdr) == STATUS_SUCCESS, "a message is made");
    VF_ASSERT(message_send(first, m, d) == STATUS_SUCCESS, "a message to an open mailbox is accepted");
    m = NULL;
    VF_ASSERT(message_receive(first, &m, d) == STATUS_SUCCESS && message_payload(m, false) == &pay.hdr, "and arrives there");
    VF_ASSERT(resource_release(message_resource_handle(m)) == STATUS_SUCCESS && pay.released == 1, "a message is released");
#else
    (void)pay;
    VF_ASSERT(conditional_notify_all(a, d) != STATUS_SUCCESS, "a closed condition is not notified");
    VF_ASSERT(conditional_notify_all(first, d) == STATUS_SUCCESS, "an open one is");
#endif
    VF_ASSERT(end(second) == STATUS_SUCCESS && end(first) == STATUS_SUCCESS, "those left open are still there");
    VF_ASSERT(end(first) != STATUS_SUCCESS, "one is closed once");
    sched_drop();
    VF_REACH("end");
}
