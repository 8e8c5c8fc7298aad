/* P11: user-defined sockets, and the buffered reader's adapter over one, hand
 * each call to the user's method: same socket, context and arguments, same
 * answer; a method the user left out is reported as undefined. */
#include "../vf.h"
#include "../vf_alloc.h"
#include <rcpr/psock.h>
#include <rcpr/resource/protected.h>
#include <rcpr/vtable.h>
#include <string.h>
#include <sys/socket.h>
#include <src/psock/psock_internal.h>
RCPR_IMPORT_psock;
/* KIND 0: the user's socket, 1: a buffered reader's adapter over it,
 * 4: the same over a socket that has these methods itself,
 * 2: a socket over a buffer (no descriptors), 3: a reader's adapter over that. */
#ifndef KIND
#define KIND 0
#endif
static RCPR_SYM(psock)* us;             /* the user's socket */
static int ctx_token;
static void* ctx = &ctx_token;
enum op { O_READ, O_WRITE, O_ACCEPT, O_SEND, O_RECV, O_OPT, O_RELEASE, O_N };
static unsigned calls[O_N];
static status ans;                      /* the method's answer */
static uint8_t data[8];
static size_t size;
static int desc; static struct sockaddr addr; static socklen_t alen;
static struct msghdr msg; static size_t mlen;
static int flags, level, name_; static socklen_t olen; static uint8_t oval[4];
static size_t nsize, nmlen; static int ndesc; static socklen_t nalen;
static bool blk;
static void self(RCPR_SYM(psock)* s, void* c)
{
    VF_ASSERT(s == us && c == ctx, "the method gets its own socket and context");
}
static status u_read(RCPR_SYM(psock)* s, void* c, void* d, size_t* n, bool block)
{
    self(s, c); ++calls[O_READ];
    VF_ASSERT(d == data && n == &size && *n == 8 && block == blk, "a read is passed on with its arguments");
    *n = nsize;
    return ans;
}
static status u_write(RCPR_SYM(psock)* s, void* c, const void* d, size_t* n)
{
    self(s, c); ++calls[O_WRITE];
    VF_ASSERT(d == data && n == &size && *n == 8, "a write is passed on with its arguments");
    *n = nsize;
    return ans;
}
static status u_accept(RCPR_SYM(psock)* s, void* c, int* d, struct sockaddr* a, socklen_t* l)
{
    self(s, c); ++calls[O_ACCEPT];
    VF_ASSERT(d == &desc && a == &addr && l == &alen && alen == sizeof addr, "an accept is passed on with its arguments");
    *d = ndesc; *l = nalen; a->sa_family = (sa_family_t)nalen;
    return ans;
}
static status u_send(RCPR_SYM(psock)* s, void* c, const struct msghdr* m, int f)
{
    self(s, c); ++calls[O_SEND];
    VF_ASSERT(m == &msg && f == flags, "a message is passed on with its flags");
    return ans;
}
static status u_recv(RCPR_SYM(psock)* s, void* c, struct msghdr* m, size_t* l, int f)
{
    self(s, c); ++calls[O_RECV];
    VF_ASSERT(m == &msg && l == &mlen && f == flags && *l == 77, "a message to receive is passed on with its arguments");
    *l = nmlen; m->msg_flags = ndesc;
    return ans;
}
static status u_opt(RCPR_SYM(psock)* s, void* c, int lv, int o, const void* v, socklen_t l)
{
    self(s, c); ++calls[O_OPT];
    VF_ASSERT(lv == level && o == name_ && v == oval && l == olen, "an option is passed on with its arguments");
    return ans;
}
static status u_release(RCPR_SYM(psock)* s, void* c)
{
    self(s, c); ++calls[O_RELEASE];
    return ans;
}
RCPR_VTABLE psock_vtable full = { .hdr = { NULL }, .read_fn = &u_read, .write_fn = &u_write, .accept_fn = &u_accept,
    .sendmsg_fn = &u_send, .recvmsg_fn = &u_recv, .setsockopt_fn = &u_opt, .release_fn = &u_release };
RCPR_VTABLE psock_vtable lean = { .hdr = { NULL }, .read_fn = &u_read, .write_fn = &u_write };
static unsigned total(void) { unsigned t = 0; for (int i = 0; i < O_N; ++i) t += calls[i]; return t; }
void vf_main(void)
{
    bool has = vf_bool();
    RCPR_SYM(psock)* p; RCPR_SYM(psock)* mem = NULL; RCPR_SYM(psock_br)* br = NULL;
    if (has) VF_ASSUME(1);
#if KIND == 4
    static RCPR_SYM(psock) bare;
    resource_init(&bare.hdr, has ? &full.hdr : &lean.hdr);
    bare.context = ctx; bare.type = PSOCK_TYPE_USER; bare.socktype = PSOCK_SOCKET_TYPE_OTHER;
    us = &bare;
#else
    VF_ASSERT(RCPR_SYM(psock_create_from_user_methods)(&us, vf_allocator_get(), ctx, has ? &full : &lean) == STATUS_SUCCESS, "the socket is made");
#endif
    p = us;
#if KIND == 1 || KIND == 4
    VF_ASSERT(RCPR_SYM(psock_br_create_from_psock)(&br, vf_allocator_get(), us) == STATUS_SUCCESS, "the reader is made");
    p = RCPR_SYM(psock_br_psock_adapter)(br);
#elif KIND == 2 || KIND == 3
    static char input[4] = "abc";
    VF_ASSERT(RCPR_SYM(psock_create_from_buffer)(&mem, vf_allocator_get(), vf_bool() ? input : NULL, 3) == STATUS_SUCCESS, "the socket is made");
    p = mem;
#if KIND == 3
    VF_ASSERT(RCPR_SYM(psock_br_create_from_psock)(&br, vf_allocator_get(), mem) == STATUS_SUCCESS, "the reader is made");
    p = RCPR_SYM(psock_br_psock_adapter)(br);
#endif
#endif
    const psock_vtable* v = NULL;
    VF_ASSERT(resource_vtable_read((const resource_vtable**)&v, RCPR_SYM(psock_resource_handle)(p)) == STATUS_SUCCESS, "its methods");
    ans = vf_i32(); nsize = vf_size(); ndesc = vf_i32(); nalen = vf_u32(); nmlen = vf_size();
    flags = vf_i32(); level = vf_i32(); name_ = vf_i32(); olen = vf_u32(); blk = vf_bool();
    size = 8; alen = sizeof addr; mlen = 77;
    int d0 = desc = vf_i32();
    unsigned op = vf_below(6);
    for (unsigned i = 0; i < 6; ++i) if (op == i) { VF_ASSUME(1); op = i; break; }
    status st;
    bool called = true;
    switch (op)
    {
        case O_READ:
            if (KIND) { VF_ASSUME(0); }
            st = v->read_fn(p, p->context, data, &size, blk);
            VF_ASSERT(size == nsize, "the size read is the method's");
            break;
        case O_WRITE:
            if (KIND == 2 || KIND == 3) { VF_ASSUME(0); }
            st = v->write_fn(p, p->context, data, &size);
            VF_ASSERT(size == nsize, "the size written is the method's");
            break;
        case O_ACCEPT:
            st = RCPR_SYM(psock_accept)(p, &desc, &addr, &alen);
            called = has && (KIND < 2 || KIND == 4);
            if (called) VF_ASSERT(desc == ndesc && alen == nalen, "the descriptor and address are the method's");
            else VF_ASSERT(desc == d0 && alen == sizeof addr, "a refused accept changes nothing");
            break;
        case O_SEND:
            if (!v->sendmsg_fn) st = ERROR_PSOCK_METHOD_UNDEFINED; else st = v->sendmsg_fn(p, p->context, &msg, flags);
            called = has && (KIND < 2 || KIND == 4);
            break;
        case O_RECV:
            if (!v->recvmsg_fn) st = ERROR_PSOCK_METHOD_UNDEFINED; else st = v->recvmsg_fn(p, p->context, &msg, &mlen, flags);
            called = has && (KIND < 2 || KIND == 4);
            if (called) VF_ASSERT(mlen == nmlen && msg.msg_flags == ndesc, "the message is the method's");
            else VF_ASSERT(mlen == 77, "a refused receive changes nothing");
            break;
        default:
            st = RCPR_SYM(psock_setsockopt)(p, level, name_, oval, olen);
            called = has && KIND == 0;
            break;
    }
    VF_ASSERT(total() == called && (!called || calls[op] == 1), "the method is called once and no other");
    if (called) { VF_ASSERT(st == ans, "the answer is the method's"); VF_REACH("forwarded"); }
    else if ((KIND == 2 || KIND == 3) && op == O_ACCEPT) { VF_ASSERT(st == ERROR_PSOCK_UNSUPPORTED_TYPE, "a buffer accepts no connections"); VF_REACH("unsupported"); }
    else { VF_ASSERT(st == ERROR_PSOCK_METHOD_UNDEFINED, "a method left out is reported"); VF_REACH("undefined"); }
    memset(calls, 0, sizeof calls);
#if KIND == 1 || KIND == 4
    VF_ASSERT(resource_release(RCPR_SYM(psock_br_resource_handle)(br)) == STATUS_SUCCESS, "the reader is released");
    VF_ASSERT(total() == 0, "the reader does not release the socket it reads");
#endif
#if KIND == 3
    VF_ASSERT(resource_release(RCPR_SYM(psock_br_resource_handle)(br)) == STATUS_SUCCESS, "the reader is released");
#endif
#if KIND == 2 || KIND == 3
    VF_ASSERT(resource_release(RCPR_SYM(psock_resource_handle)(mem)) == STATUS_SUCCESS, "the socket is released");
#endif
#if KIND != 4
    st = resource_release(RCPR_SYM(psock_resource_handle)(us));
    VF_ASSERT(total() == has && calls[O_RELEASE] == has, "the user's release runs once");
    VF_ASSERT(st == (has ? ans : STATUS_SUCCESS), "its answer is that of the release");
#endif
    VF_ASSERT(vf_live == 0, "everything is reclaimed");
}
