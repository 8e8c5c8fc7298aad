/* V01: run-time enforcement of method tables (the library and this file are
 * built with RCPR_VTABLE_RUNTIME_ENFORCEMENT, and without the assertion form).
 * KIND 0: the check itself, every address.  KIND 1: allocators.  KIND 2:
 * resources and sockets, the table replaced at any moment of an operation. */
#include "../vf_alloc.h"
#include "../vf_res.h"
#include <string.h>
#include <rcpr/psock.h>
#include <src/psock/psock_internal.h>
RCPR_IMPORT_psock_internal;
RCPR_IMPORT_vtable;
#ifndef RCPR_VTABLE_RUNTIME_ENFORCEMENT
#error "build with enforcement"
#endif
extern const char __start_rcpr_vtable_[] __asm__("__start_rcpr_vtable");
extern const char __stop_rcpr_vtable_[] __asm__("__stop_rcpr_vtable");

static uintptr_t lo, hi;
/* any address outside the section (inside: the section's own bytes) */
static void* outside(void)
{
    uintptr_t d = vf_u64();     /* distance from the end, around the address space */
    VF_ASSUME(d < (uintptr_t)0 - (hi - lo));
    return (void*)(hi + d);
}
static resource_vtable* keep[1];
static unsigned called;
#if KIND == 0
void vf_main(void)
{
    lo = (uintptr_t)__start_rcpr_vtable_; hi = (uintptr_t)__stop_rcpr_vtable_;
    bool in = vf_bool();
    void* p;
    if (in) { uintptr_t d = vf_u64(); VF_ASSUME(d < hi - lo); p = (void*)(lo + d); }
    else p = outside();
    VF_ASSERT(vtable_range_valid(p) == in, "an address is accepted exactly when it lies in the section of method tables");
    vf_res r;
    vf_res_init(&r);
    resource_init(&r.hdr, p);
    const resource_vtable* v = (const resource_vtable*)keep;
    status s = resource_vtable_read(&v, &r.hdr);
    if (in) { VF_ASSERT(s == STATUS_SUCCESS && v == p, "the table of a resource can be read"); VF_REACH("inside"); }
    else { VF_ASSERT(s == ERROR_GENERAL_BAD_VTABLE && v == (const resource_vtable*)keep, "a table outside the section is refused"); VF_REACH("outside"); }
}
#elif KIND == 1
static status a_alloc(RCPR_SYM(allocator)* a, void** p, size_t n) { (void)a; (void)n; ++called; *p = keep; return STATUS_SUCCESS; }
static status a_reclaim(RCPR_SYM(allocator)* a, void* p) { (void)a; (void)p; ++called; return STATUS_SUCCESS; }
static status a_realloc(RCPR_SYM(allocator)* a, void** p, size_t n) { (void)a; (void)n; ++called; *p = keep; return STATUS_SUCCESS; }
static status a_control(RCPR_SYM(allocator)* a, int k, void* v, size_t n) { (void)a; (void)k; (void)v; (void)n; ++called; return STATUS_SUCCESS; }
static status a_release(resource* r) { (void)r; ++called; return STATUS_SUCCESS; }
RCPR_VTABLE RCPR_SYM(allocator_vtable) good = { .hdr = { &a_release }, .allocate_fn = &a_alloc, .reclaim_fn = &a_reclaim,
    .reallocate_fn = &a_realloc, .control_fn = &a_control };
void vf_main(void)
{
    lo = (uintptr_t)__start_rcpr_vtable_; hi = (uintptr_t)__stop_rcpr_vtable_;
    static RCPR_SYM(allocator_vtable) loose;
    memcpy(&loose, &good, sizeof good);
    bool ok = vf_bool();
    static struct { RCPR_SYM(resource) hdr; void* room[4]; } obj;
    resource_init(&obj.hdr, ok ? (void*)&good.hdr : vf_bool() ? (void*)&loose.hdr : outside());
    RCPR_SYM(allocator)* a = (RCPR_SYM(allocator)*)&obj;
    void* p = &called; status s; unsigned k = vf_below(5);
    switch (k)
    {
        case 0: s = allocator_allocate(a, &p, 1); break;
        case 1: s = allocator_reclaim(a, p); break;
        case 2: s = allocator_reallocate(a, &p, 1); break;
        case 3: s = allocator_control(a, 7, p, 8); break;
        default: s = resource_release(RCPR_SYM(allocator_resource_handle)(a)); break;
    }
    if (ok) { VF_ASSERT(s == STATUS_SUCCESS && called == 1, "an allocator whose table is in the section works"); VF_REACH("works"); return; }
    VF_ASSERT(s == ERROR_GENERAL_BAD_VTABLE && called == 0, "an allocator with a table outside the section is refused and never called");
    VF_ASSERT(k == 0 ? p == NULL || p == (void*)&called : p == (void*)&called, "nothing is given out");
    if (k == 4) VF_REACH("release refused"); else VF_REACH("refused");
}
#else
#include "../psock/boxes.h"
#include <sys/socket.h>
static psock* s; static unsigned forge; static void* bad; static bool forged; static unsigned step; static unsigned kind;
static void perhaps(void)
{
    if (step++ == forge) { forged = true; s->hdr.vtable = bad; }
}
static status u_read(psock* q, void* c, void* d, size_t* n, bool b)
{
    (void)q; (void)c; (void)b;
    VF_ASSERT(!forged, "a refused table is not called through");
    memset(d, 0, *n);
    if (*n == 4) ((uint8_t*)d)[3] = step == 0 ? b_tag[kind] : 2;
    perhaps();
    return STATUS_SUCCESS;
}
static status u_write(psock* q, void* c, const void* d, size_t* n)
{
    (void)q; (void)c; (void)d; (void)n;
    VF_ASSERT(!forged, "a refused table is not called through");
    perhaps();
    return STATUS_SUCCESS;
}
static status u_accept(psock* q, void* c, int* d, struct sockaddr* a, socklen_t* l)
{ (void)q; (void)c; (void)a; (void)l; VF_ASSERT(!forged, "a refused table is not called through"); *d = 5; perhaps(); return STATUS_SUCCESS; }
static status u_send(psock* q, void* c, const struct msghdr* m, int f)
{ (void)q; (void)c; (void)m; (void)f; VF_ASSERT(!forged, "a refused table is not called through"); perhaps(); return STATUS_SUCCESS; }
static status u_recv(psock* q, void* c, struct msghdr* m, size_t* l, int f)
{ (void)q; (void)c; (void)m; (void)l; (void)f; VF_ASSERT(!forged, "a refused table is not called through"); perhaps(); return ERROR_PSOCK_READ_GENERAL; }
static status u_opt(psock* q, void* c, int lv, int o, const void* v, socklen_t l)
{ (void)q; (void)c; (void)lv; (void)o; (void)v; (void)l; VF_ASSERT(!forged, "a refused table is not called through"); perhaps(); return STATUS_SUCCESS; }
static status u_release(psock* q, void* c) { (void)q; (void)c; VF_ASSERT(!forged, "a refused table is not called through"); return STATUS_SUCCESS; }
RCPR_VTABLE RCPR_SYM(psock_vtable) user = { .hdr = { NULL }, .read_fn = &u_read, .write_fn = &u_write, .accept_fn = &u_accept,
    .sendmsg_fn = &u_send, .recvmsg_fn = &u_recv, .setsockopt_fn = &u_opt, .release_fn = &u_release };
enum { O_BOXR, O_BOXW = O_BOXR + B_KINDS, O_RAWR = O_BOXW + B_KINDS, O_RAWW = O_RAWR + B_STR, O_RDATA = O_RAWW + B_STR, O_WDATA, O_RAW,
    O_RDESC, O_WDESC, O_ACCEPT, O_OPT, O_RELEASE, O_BR, O_LINE, O_BRW = O_LINE + 1, O_BRA, O_BRS, O_BRM, O_AR, O_AW, O_AA, O_AS, O_AM, O_N };
static status raw(unsigned k)
{
    int64_t a; uint64_t b; int32_t c; uint32_t d; int16_t e; uint16_t f; int8_t g; uint8_t h; bool i;
    switch (k)
    {
        case B_I64: return RCPR_SYM(psock_read_raw_int64)(s, &a);
        case B_U64: return RCPR_SYM(psock_read_raw_uint64)(s, &b);
        case B_I32: return RCPR_SYM(psock_read_raw_int32)(s, &c);
        case B_U32: return RCPR_SYM(psock_read_raw_uint32)(s, &d);
        case B_I16: return RCPR_SYM(psock_read_raw_int16)(s, &e);
        case B_U16: return RCPR_SYM(psock_read_raw_uint16)(s, &f);
        case B_I8: return RCPR_SYM(psock_read_raw_int8)(s, &g);
        case B_U8: return RCPR_SYM(psock_read_raw_uint8)(s, &h);
        default: return RCPR_SYM(psock_read_raw_bool)(s, &i);
    }
}
static status rawput(unsigned k)
{
    switch (k)
    {
        case B_I64: return RCPR_SYM(psock_write_raw_int64)(s, 1);
        case B_U64: return RCPR_SYM(psock_write_raw_uint64)(s, 1);
        case B_I32: return RCPR_SYM(psock_write_raw_int32)(s, 1);
        case B_U32: return RCPR_SYM(psock_write_raw_uint32)(s, 1);
        case B_I16: return RCPR_SYM(psock_write_raw_int16)(s, 1);
        case B_U16: return RCPR_SYM(psock_write_raw_uint16)(s, 1);
        case B_I8: return RCPR_SYM(psock_write_raw_int8)(s, 1);
        case B_U8: return RCPR_SYM(psock_write_raw_uint8)(s, 1);
        default: return RCPR_SYM(psock_write_raw_bool)(s, true);
    }
}
static status op(unsigned o)
{
    static psock_br* br; static psock_wrap_async w; psock* p = NULL;
    uint8_t b[8] = {0}; size_t n = 3; int d = 5; struct sockaddr_storage sa; socklen_t sl = sizeof sa; struct msghdr m; void* blk = NULL; bool pub;
    bval v = { 1, { 'a', 'b', 0 }, 2 };
    status r;
    memset(&m, 0, sizeof m);
    if (o < O_BOXW) { r = b_read(s, kind = o - O_BOXR, &v, &blk, &pub); if (r == STATUS_SUCCESS && blk) VF_ASSERT(allocator_reclaim(vf_allocator_get(), blk) == STATUS_SUCCESS, "the block is the caller's"); return r; }
    if (o < O_RAWR) return b_write(s, o - O_BOXW, &v);
    if (o < O_RAWW) return raw(o - O_RAWR);
    if (o < O_RDATA) return rawput(o - O_RAWW);
    if (o >= O_BR && o < O_AR)
    {
        forge += 100;           /* not while it is made */
        void* was = (void*)s->hdr.vtable;
        if (forged) s->hdr.vtable = keep[0];
        VF_ASSERT(RCPR_SYM(psock_br_create_from_psock)(&br, vf_allocator_get(), s) == STATUS_SUCCESS, "the reader is made");
        s->hdr.vtable = was;
        forge -= 100;
        p = RCPR_SYM(psock_br_psock_adapter)(br);
    }
    if (o >= O_AR) { memset(&w, 0, sizeof w); w.hdr.type = PSOCK_TYPE_WRAP_ASYNC; w.wrapped = s; p = &w.hdr; }
    switch (o)
    {
        case O_RDATA: r = RCPR_SYM(psock_read_raw_data)(s, vf_allocator_get(), &blk, 3);
            if (r == STATUS_SUCCESS) VF_ASSERT(allocator_reclaim(vf_allocator_get(), blk) == STATUS_SUCCESS, "the block is the caller's"); return r;
        case O_WDATA: return RCPR_SYM(psock_write_raw_data)(s, b, 3);
        case O_RAW: return RCPR_SYM(psock_read_raw)(s, b, &n);
        case O_RDESC: s->socktype = PSOCK_SOCKET_TYPE_DATAGRAM; return RCPR_SYM(psock_read_raw_descriptor)(s, &d);
        case O_WDESC: s->socktype = PSOCK_SOCKET_TYPE_DATAGRAM; return RCPR_SYM(psock_write_raw_descriptor)(s, 5);
        case O_ACCEPT: return RCPR_SYM(psock_accept)(s, &d, (struct sockaddr*)&sa, &sl);
        case O_OPT: return RCPR_SYM(psock_setsockopt)(s, 1, 2, b, 4);
        case O_RELEASE: r = resource_release(RCPR_SYM(psock_resource_handle)(s)); if (r == STATUS_SUCCESS) s = NULL; return r;
        case O_BR: r = psock_br_psock_read(p, p->context, b, &n, vf_bool()); break;
        case O_LINE: { char l[8]; n = 2; r = RCPR_SYM(psock_br_read_line)(l, &n, br); if (r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) r = STATUS_SUCCESS; break; }
        case O_BRW: r = psock_br_psock_write(p, p->context, b, &n); break;
        case O_BRA: r = psock_br_psock_accept(p, p->context, &d, (struct sockaddr*)&sa, &sl); break;
        case O_BRS: r = psock_br_psock_sendmsg(p, p->context, &m, 0); break;
        case O_BRM: r = psock_br_psock_recvmsg(p, p->context, &m, &n, 0); break;
        case O_AR: return psock_wrap_async_read(p, NULL, b, &n, false);
        case O_AW: return psock_wrap_async_write(p, NULL, b, &n);
        case O_AA: return psock_wrap_async_accept(p, NULL, &d, (struct sockaddr*)&sa, &sl);
        case O_AS: return psock_wrap_async_sendmsg(p, NULL, &m, 0);
        default: return psock_wrap_async_recvmsg(p, NULL, &m, &n, 0);
    }
    /* the reader goes; its socket stays */
    void* was = (void*)s->hdr.vtable;
    s->hdr.vtable = keep[0];
    bool f = forged;
    forged = false;
    VF_ASSERT(resource_release(RCPR_SYM(psock_br_resource_handle)(br)) == STATUS_SUCCESS, "the reader is released");
    forged = f; s->hdr.vtable = was;
    return r;
}
void vf_main(void)
{
    lo = (uintptr_t)__start_rcpr_vtable_; hi = (uintptr_t)__stop_rcpr_vtable_;
    unsigned o = vf_below(O_N);
    for (unsigned i = 0; i < O_N; ++i) if (o == i) { o = i; break; }
    bad = outside();
    VF_ASSERT(RCPR_SYM(psock_create_from_user_methods)(&s, vf_allocator_get(), NULL, &user) == STATUS_SUCCESS, "the socket is made");
    keep[0] = (void*)s->hdr.vtable;
    forge = vf_below(4);
    if (forge == 0) { forged = true; s->hdr.vtable = bad; forge = 99; } else --forge;
    bool first = forged;
    status r = op(o);
    if (first)
    {
        /* a line reader tells any failed first read in its own words */
        VF_ASSERT(o == O_LINE ? r != STATUS_SUCCESS : r == ERROR_GENERAL_BAD_VTABLE, "an operation on a resource whose table lies outside the section is refused");
        VF_REACH("refused");
    }
    else if (r == ERROR_GENERAL_BAD_VTABLE) { VF_ASSERT(forged, "only a table outside the section is refused"); VF_REACH("refused half-way"); }
    else if (!forged) { if (r == STATUS_SUCCESS) VF_REACH("works"); }
    else VF_REACH("the last step");
    if (s)
    {
        s->hdr.vtable = keep[0];
        forged = false; forge = 99;
        VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(s)) == STATUS_SUCCESS, "the socket is released");
    }
    VF_ASSERT(vf_live == 0, "nothing leaks");
}
#endif
