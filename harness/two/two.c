/* X01: two instances of the same thing, used in turns, against each used
 * alone.  A program of STEPS steps, each on either instance, is run three
 * times: the first instance's steps only, the second's only, and all of them;
 * whatever was observed of an instance must be the same.
 * With REUSE memory given back is handed out again and an instance released is
 * made again for a later step.
 * KIND 0: schedulers with fibers, mailboxes and conditions, 1: iterators over words,
 * 2: iterators over pieces, 3: bump allocators, 4: buffered readers,
 * 5: output sockets, 6: triggers, 7: queues, 8: trees, 9: input sockets. */
#include "../fiber/env.h"
#include "../vf_res.h"
#include <rcpr/message.h>
#include <rcpr/condition.h>
#include <rcpr/psock.h>
#include <rcpr/string.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/compare.h>
RCPR_IMPORT_message;
RCPR_IMPORT_condition;
RCPR_IMPORT_psock;
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;
RCPR_IMPORT_string_as(rs);
#ifndef STEPS
#define STEPS 4
#endif
#ifndef KIND
#define KIND 0
#endif
enum { LOG = 40 * (STEPS + 2), STOP = 99 };
static uint64_t logs[2][2][LOG]; static int n_log[2][2]; static int pass; /* 0: alone, 1: together */
static void note(int i, uint64_t v) { VF_ASSERT(n_log[pass][i] < LOG, "harness: log"); logs[pass][i][n_log[pass][i]++] = v; }
static unsigned which[STEPS], op[STEPS];
static uint8_t data[2][2 * STEPS + 16];
static unsigned choose(unsigned n)
{
    unsigned k = vf_below(n);
    for (unsigned i = 0; i < n; ++i) if (k == i) { VF_ASSUME(1); return i; }
    return n - 1;
}
static void ok(status s, const char* what) { (void)what; VF_ASSERT(s == STATUS_SUCCESS, "an instance works"); }

#if KIND == 0
enum { OPS = 6, NM = STEPS + 1 };
typedef struct inst { int i; fiber_scheduler* s; fiber_scheduler_discipline *m, *c; mailbox_address box; conditional cond; int waiting, sent; fiber* w[STEPS]; int nw; vf_res pay[NM]; } inst;
static void make(inst* x, int i)
{
    memset(x, 0, sizeof *x); x->i = i;
    ok(fiber_scheduler_create_with_disciplines(&x->s, vf_allocator_get()), "scheduler");
}
static void need(inst* x)
{
    fiber_scheduler_discipline* d = NULL;
    ok(message_discipline_get_or_create(&d, vf_allocator_get(), x->s), "found or made");
    if (x->m) { note(x->i, d == x->m); return; }
    x->m = d;
    ok(message_discipline_get_or_create(&d, vf_allocator_get(), x->s), "found");
    note(x->i, d == x->m);
    ok(STATUS_SUCCESS, "messages");
    ok(mailbox_create(&x->box, x->m), "mailbox");
}
static void needc(inst* x)
{
    fiber_scheduler_discipline* d = NULL;
    ok(condition_discipline_get_or_create(&d, vf_allocator_get(), x->s), "found or made");
    if (x->c) { note(x->i, d == x->c); return; }
    x->c = d;
    ok(condition_discipline_get_or_create(&d, vf_allocator_get(), x->s), "found");
    note(x->i, d == x->c);
    ok(STATUS_SUCCESS, "conditions");
    ok(conditional_create(&x->cond, x->c), "condition");
}
static status taker(void* c)
{
    inst* x = c; message* m = NULL;
    status s = message_receive(x->box, &m, x->m);
    note(x->i, (uint64_t)(uint32_t)s);
    if (s == STATUS_SUCCESS)
    {
        note(x->i, message_return_address(m)); note(x->i, (uint64_t)((vf_res*)message_payload(m, false) - x->pay));
        ok(resource_release(message_resource_handle(m)), "release");
    }
    for (;;) ok(fiber_scheduler_run(x->s), "run");
}
static status waiter(void* c)
{
    inst* x = c;
    status s = conditional_wait(x->cond, x->c);
    note(x->i, 0x100000000u | (uint32_t)s);
    for (;;) ok(fiber_scheduler_run(x->s), "run");
}
static void step(inst* x, unsigned o)
{
    message* m = NULL;
    switch (o)
    {
    case 0: need(x);
        vf_res_init(&x->pay[x->sent]);
        ok(message_create(&m, vf_allocator_get(), 7 + (uint64_t)x->sent, &x->pay[x->sent].hdr), "message"); ++x->sent;
        ok(message_send(x->box, m, x->m), "send"); ++x->waiting; break;
    case 1: need(x);
        if (x->nw) break;
        ok(fiber_create(&x->w[x->nw], vf_allocator_get(), x->s, 4096, x, &taker), "fiber");
        ok(fiber_scheduler_add(x->s, x->w[x->nw++]), "add"); break;
    case 2: needc(x);
        ok(fiber_create(&x->w[x->nw], vf_allocator_get(), x->s, 4096, x, &waiter), "fiber");
        ok(fiber_scheduler_add(x->s, x->w[x->nw++]), "add"); break;
    case 3: needc(x); ok(conditional_notify_all(x->cond, x->c), "notify"); break;
    case 4: ok(fiber_scheduler_run(x->s), "run"); break;
    case 5: { fiber *f = NULL, *g = NULL;
        ok(disciplined_fiber_scheduler_main_fiber_get(&f, x->s), "main fiber"); ok(disciplined_fiber_scheduler_current_fiber_get(&g, x->s), "current fiber");
        note(x->i, f == g);
        fiber_scheduler_discipline* d = NULL; status s = fiber_scheduler_discipline_find(&d, x->s, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE);
        note(x->i, (uint32_t)s); note(x->i, s == STATUS_SUCCESS && d == x->m); break; }
    }
}
static void stop(inst* x)
{
    ok(resource_release(fiber_scheduler_resource_handle(x->s)), "release");
    for (int k = 0; k < x->sent; ++k) note(x->i, (uint64_t)x->pay[k].released);
}
#elif KIND == 1 || KIND == 2
enum { OPS = 1, LEN = 5 };
typedef struct inst { int i; char* s; bool any; RCPR_SYM(string_iterator) it; } inst;
static bool sep(int c) { return c != 'x'; }
static void make(inst* x, int i)
{
    memset(x, 0, sizeof *x); x->i = i; x->s = malloc(LEN + 1); VF_ASSUME(x->s != NULL);
    memcpy(x->s, data[i], LEN); x->s[LEN] = 0;
}
static void step(inst* x, unsigned o)
{
    (void)o; const char* w = NULL;
    status s = KIND == 1 ? rs_words(&w, &x->it, x->any ? NULL : x->s) : rs_multisplit(&w, &x->it, x->any ? NULL : x->s, &sep);
    x->any = true; note(x->i, (uint32_t)s); note(x->i, w ? (uint64_t)(w - x->s) : 77);
    for (int k = 0; k <= LEN; ++k) note(x->i, (uint64_t)x->s[k]);
}
static void stop(inst* x) { free(x->s); }
#elif KIND == 3
enum { OPS = 4 };
static _Alignas(16) uint8_t room[2][256];
typedef struct inst { int i; allocator* a; } inst;
static void make(inst* x, int i) { x->i = i; ok(bump_allocator_create(&x->a, room[i], sizeof room[i]), "allocator"); }
static void step(inst* x, unsigned o)
{
    void* p = NULL;
    if (o == 3) { note(x->i, (uint32_t)allocator_control(x->a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0)); return; }
    status s = allocator_allocate(x->a, &p, o == 2 ? 200 : 1 + 40 * o);
    note(x->i, (uint32_t)s); note(x->i, p ? (uint64_t)((uint8_t*)p - room[x->i]) : 999);
    if (p) memset(p, 0x5a, 1);
}
static void stop(inst* x) { ok(resource_release(allocator_resource_handle(x->a)), "release"); }
#elif KIND == 4 || KIND == 9
enum { OPS = 3, LEN = 8 };
typedef struct inst { int i; psock* s; psock_br* br; } inst;
static void make(inst* x, int i)
{
    memset(x, 0, sizeof *x); x->i = i;
    ok(psock_create_from_buffer(&x->s, vf_allocator_get(), (const char*)data[i], LEN), "socket");
    if (KIND == 4) ok(psock_br_create_from_psock(&x->br, vf_allocator_get(), x->s), "reader");
}
static void step(inst* x, unsigned o)
{
    uint8_t b[4] = { 0 }; size_t n = o == 2 ? 1 : 4; status s;
    if (KIND == 4 && o == 0) s = psock_br_read_line(b, &n, x->br);
    else s = psock_read_raw(KIND == 4 ? psock_br_psock_adapter(x->br) : x->s, b, &n);
    note(x->i, (uint32_t)s); note(x->i, n);
    if (s == STATUS_SUCCESS || s == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) for (size_t k = 0; k < n && k < 4; ++k) note(x->i, b[k]);
}
static void stop(inst* x)
{
    if (x->br) ok(resource_release(psock_br_resource_handle(x->br)), "release");
    ok(resource_release(psock_resource_handle(x->s)), "release");
}
#elif KIND == 5
enum { OPS = 3 };
typedef struct inst { int i, n; psock* s; } inst;
static void make(inst* x, int i) { x->i = i; x->n = 0; ok(psock_create_from_buffer(&x->s, vf_allocator_get(), NULL, 0), "socket"); }
static void step(inst* x, unsigned o)
{
    if (o == 0) { note(x->i, (uint32_t)psock_write_raw_uint8(x->s, data[x->i][x->n++])); return; }
    if (o == 1) { static uint8_t big[5000]; big[4999] = data[x->i][x->n++]; note(x->i, (uint32_t)psock_write_raw_data(x->s, big, sizeof big)); return; }
    void* b = NULL; size_t n = 0;
    status s = psock_from_buffer_get_output_buffer(x->s, vf_allocator_get(), &b, &n);
    note(x->i, (uint32_t)s);
    if (s != STATUS_SUCCESS) return;
    note(x->i, n); if (n) note(x->i, ((uint8_t*)b)[n - 1]);
    if (b) ok(allocator_reclaim(vf_allocator_get(), b), "reclaim");
}
static void stop(inst* x) { step(x, 2); ok(resource_release(psock_resource_handle(x->s)), "release"); }
#elif KIND == 6
enum { OPS = 3 };
typedef struct inst { int i; auto_reset_trigger* t; } inst;
static void called(void* c) { note(((inst*)c)->i, 1234); }
static void make(inst* x, int i) { x->i = i; ok(auto_reset_trigger_create(&x->t, vf_allocator_get()), "trigger"); }
static void step(inst* x, unsigned o)
{
    if (o == 0) auto_reset_trigger_signal(x->t);
    else if (o == 1) note(x->i, (uint32_t)auto_reset_trigger_register(x->t, &called, x));
    else { note(x->i, 5); auto_reset_trigger_step(x->t); }
}
static void stop(inst* x) { ok(resource_release(auto_reset_trigger_resource_handle(x->t)), "release"); }
#elif KIND == 7
enum { OPS = 3 };
typedef struct inst { int i, n; queue* q; vf_res e[STEPS]; } inst;
static void make(inst* x, int i) { memset(x, 0, sizeof *x); x->i = i; ok(queue_create(&x->q, vf_allocator_get()), "queue"); }
static void step(inst* x, unsigned o)
{
    if (o < 2) { vf_res* r = &x->e[x->n++]; vf_res_init(r); note(x->i, (uint32_t)(o ? queue_append(x->q, &r->hdr) : queue_insert(x->q, &r->hdr))); }
    else { resource* r = NULL; note(x->i, (uint32_t)queue_pop(x->q, &r)); note(x->i, r ? (uint64_t)((vf_res*)r - x->e) : 55); if (r) ok(resource_release(r), "release"); }
    note(x->i, queue_count(x->q));
}
static void stop(inst* x) { ok(resource_release(queue_resource_handle(x->q)), "release"); for (int k = 0; k < x->n; ++k) note(x->i, (uint64_t)x->e[k].released); }
#elif KIND == 8
enum { OPS = 3 };
typedef struct elt { vf_res r; uint8_t key; } elt;
typedef struct inst { int i, n; rbtree* t; elt e[STEPS]; } inst;
static const void* key_of(void* c, const resource* r) { note(((inst*)c)->i, 1); return &((const elt*)r)->key; }
static rcpr_comparison_result cmp(void* c, const void* a, const void* b)
{
    note(((inst*)c)->i, 2); uint8_t x = *(const uint8_t*)a, y = *(const uint8_t*)b;
    return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static void make(inst* x, int i) { memset(x, 0, sizeof *x); x->i = i; ok(rbtree_create(&x->t, vf_allocator_get(), &cmp, &key_of, x), "tree"); }
static void step(inst* x, unsigned o)
{
    if (o == 0)
    {
        elt* e = &x->e[x->n]; vf_res_init(&e->r); e->key = data[x->i][x->n++] & 3;
        status s = rbtree_insert(x->t, &e->r.hdr); note(x->i, (uint32_t)s);
        if (s != STATUS_SUCCESS) ok(resource_release(&e->r.hdr), "release");
    }
    else
    {
        uint8_t k = data[x->i][0] & 3; resource* r = NULL;
        note(x->i, (uint32_t)(o == 1 ? rbtree_find(&r, x->t, &k) : rbtree_delete(&r, x->t, &k)));
        note(x->i, r ? (uint64_t)((elt*)r - x->e) : 55);
        if (r && o == 2) ok(resource_release(r), "release");
    }
    note(x->i, rbtree_count(x->t));
}
static void stop(inst* x) { ok(resource_release(rbtree_resource_handle(x->t)), "release"); for (int k = 0; k < x->n; ++k) note(x->i, (uint64_t)x->e[k].r.released); }
#endif

static inst in[2];
static void run(unsigned mask)
{
    bool live[2];
    for (int i = 0; i < 2; ++i) { live[i] = mask & (1u << i); if (live[i]) make(&in[i], i); }
    for (int k = 0; k < STEPS; ++k)
    {
        unsigned i = which[k];
        if (!(mask & (1u << i))) continue;
        if (!live[i])
        {
            if (op[k] == STOP || !vf_reuse) continue;
            make(&in[i], i); live[i] = true; VF_REACH("made again");
        }
        if (op[k] == STOP) { stop(&in[i]); live[i] = false; }
        else step(&in[i], op[k]);
    }
    for (int i = 0; i < 2; ++i) if (live[i]) stop(&in[i]);
    VF_ASSERT(vf_live == 0 && maps_live == 0, "everything is given back");
}
void vf_main(void)
{
    vf_may_fail = false;
#ifdef REUSE
    vf_reuse = true;
#endif
    for (int i = 0; i < 2; ++i) for (unsigned k = 0; k < sizeof data[i]; ++k) data[i][k] = KIND == 0 ? 0 : vf_u8();
#if KIND == 1 || KIND == 2
    for (int i = 0; i < 2; ++i) for (unsigned k = 0; k < LEN; ++k) VF_ASSUME(data[i][k] != 0);
#endif
    for (int k = 0; k < STEPS; ++k)
    {
        which[k] = choose(2);
        op[k] = choose(OPS + 1);
        if (op[k] == OPS) { op[k] = STOP; VF_REACH("one released first"); }
    }
    run(1); run(2);
    pass = 1;
    run(3);
    for (int i = 0; i < 2; ++i)
    {
        VF_ASSERT(n_log[0][i] == n_log[1][i], "an instance does as much as it does alone");
        for (int k = 0; k < n_log[0][i]; ++k) VF_ASSERT(logs[0][i][k] == logs[1][i][k], "an instance does what it does alone");
    }
    if (n_log[1][0] && n_log[1][1]) VF_REACH("both used");
    VF_REACH("end");
}
