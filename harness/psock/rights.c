/* P09: passing descriptors over a datagram socket.
 * MODE 0 receive what the operating system makes of 0..3 passed descriptors
 * (and credentials), 1 receive any control data, 2 send. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "../vf.h"
#include "../vf_sys.h"
#include "../vf_alloc.h"
#include <errno.h>
#include <string.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
RCPR_IMPORT_psock;
enum { FD = 5 };
static int SENT;
static bool fd_open, sys_failed;
static int type;
static unsigned sent, passed, installed, calls, open_count; static bool creds, was_open[4];
static int the_desc, given; static bool arbitrary_ok, arbitrary_fd, given_closed;
int vf_sys_close(int fd)
{
    if (fd == FD) { VF_ASSERT(fd_open, "the socket is closed once"); fd_open = false; return 0; }
    if (MODE == 1) { VF_ASSERT(fd == given, "only a received descriptor is closed"); given_closed = true; return 0; }
    VF_ASSERT(fd >= SENT && fd < SENT + (int)installed && was_open[fd - SENT], "only a received descriptor is closed, and once");
    was_open[fd - SENT] = false; --open_count;
    return 0;
}
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n)
{
    VF_ASSERT(fd == FD && l == SOL_SOCKET && o == SO_TYPE && *n == sizeof(int), "the socket's type is asked for");
    if (type < 0) { errno = ENOTSOCK; return -1; }
    *(int*)v = type;
    return 0;
}
static bool fails(void)
{
    if (!vf_bool()) return false;
    VF_ASSUME(1);
    sys_failed = true;
    errno = vf_bool() ? EAGAIN : ECONNRESET;
    return true;
}
ssize_t vf_sys_recvmsg(int fd, void* mp, int fl)
{
    struct msghdr* m = mp;
    VF_ASSERT(fd == FD && fl == 0 && m->msg_name == NULL && m->msg_iovlen >= 1 && m->msg_iov[0].iov_len >= 1, "a receive with room for the data");
    ++calls;
    if (fails()) return -1;
    *(char*)m->msg_iov[0].iov_base = 0;
    for (size_t i = 1; i < m->msg_iovlen; ++i) if (m->msg_iov[i].iov_len > 0) *(char*)m->msg_iov[i].iov_base = 0;
    size_t cap = m->msg_controllen;
    m->msg_flags = 0;
    if (MODE == 1)
    {
        /* anything the room allows, of any length. */
        size_t len = cap;
        for (unsigned i = 0; i < 64; ++i) if (len > 0 && vf_bool()) { VF_ASSUME(1); --len; } else break;
        uint8_t* p = m->msg_control;
        /* the header's fields: any length, right or wrong level and type. */
        uint8_t raw[64];
        VF_ASSERT(cap <= sizeof raw, "harness: small control room");
        for (size_t i = 0; i < len; ++i) raw[i] = vf_u8();
        memcpy(p, raw, len);
        m->msg_controllen = len;
        m->msg_flags = (int)vf_u32();
        arbitrary_ok = false;
        if (len >= CMSG_LEN(sizeof(int)))
        {
            struct cmsghdr h;
            memcpy(&h, raw, sizeof h);
            memcpy(&given, raw + CMSG_LEN(0), sizeof given);
            VF_ASSUME(given != FD);
            arbitrary_ok = h.cmsg_level == SOL_SOCKET && h.cmsg_type == SCM_RIGHTS && h.cmsg_len == CMSG_LEN(sizeof(int))
                && given >= 0;
            arbitrary_fd = arbitrary_ok;
            if (m->msg_flags & MSG_CTRUNC) arbitrary_ok = false;   /* more was sent */
        }
        return 1;
    }
    size_t used = 0; uint8_t* at = m->msg_control;
    if (creds)
    {
        struct cmsghdr h; size_t l = CMSG_LEN(12);
        if (cap < sizeof h) m->msg_flags |= MSG_CTRUNC;
        else
        {
            memset(&h, 0, sizeof h);
            if (cap < l) { l = cap; m->msg_flags |= MSG_CTRUNC; }
            h.cmsg_len = l; h.cmsg_level = SOL_SOCKET; h.cmsg_type = SCM_CREDENTIALS;
            memcpy(at, &h, sizeof h);
            memset(at + sizeof h, 1, l - sizeof h);
            used = CMSG_ALIGN(l); if (used > cap) used = cap;
        }
    }
    size_t room = cap - used; unsigned fit = room > sizeof(struct cmsghdr) ? (unsigned)((room - sizeof(struct cmsghdr)) / sizeof(int)) : 0;
    unsigned k = passed < fit ? passed : fit;
    if (k > 0)
    {
        struct cmsghdr h;
        memset(&h, 0, sizeof h);
        h.cmsg_len = CMSG_LEN(k * sizeof(int)); h.cmsg_level = SOL_SOCKET; h.cmsg_type = SCM_RIGHTS;
        memcpy(at + used, &h, sizeof h);
        for (unsigned i = 0; i < k; ++i)
        {
            int d = SENT + (int)i;
            memcpy(at + used + CMSG_LEN(0) + i * sizeof(int), &d, sizeof d);
            was_open[i] = true; ++open_count;
        }
        installed = k;
        size_t s = CMSG_SPACE(k * sizeof(int));
        used += s < room ? s : room;
    }
    if (k < passed) m->msg_flags |= MSG_CTRUNC;
    m->msg_controllen = used;
    return 1;
}
ssize_t vf_sys_sendmsg(int fd, const void* mp, int fl)
{
    const struct msghdr* m = mp;
    VF_ASSERT(fd == FD && fl == 0 && m->msg_name == NULL, "a plain send on the socket");
    VF_ASSERT(m->msg_iovlen == 1 && m->msg_iov[0].iov_len == 1 && *(const char*)m->msg_iov[0].iov_base == 0, "one byte of data");
    struct cmsghdr h;
    VF_ASSERT(m->msg_controllen >= CMSG_LEN(sizeof(int)) && m->msg_controllen <= CMSG_SPACE(sizeof(int)), "one control message");
    memcpy(&h, m->msg_control, sizeof h);
    VF_ASSERT(h.cmsg_level == SOL_SOCKET && h.cmsg_type == SCM_RIGHTS && h.cmsg_len == CMSG_LEN(sizeof(int)), "that passes one descriptor");
    int d;
    memcpy(&d, (const uint8_t*)m->msg_control + CMSG_LEN(0), sizeof d);
    VF_ASSERT(d == the_desc, "exactly the given descriptor is passed");
    VF_ASSERT(!(((const uint8_t*)m->msg_control)[CMSG_LEN(sizeof(int)) - 1] & 0x80), "a descriptor");
    ++calls;
    if (fails()) return -1;
    ++sent;
    return 1;
}
void vf_main(void)
{
    vf_may_fail = false;
    SENT = vf_bool() ? 0 : 20;
    if (SENT) VF_ASSUME(1);
    type = SOCK_DGRAM;
    if (vf_bool()) { VF_ASSUME(1); type = vf_bool() ? SOCK_STREAM : -1; }
    fd_open = true;
    psock* s = NULL;
    VF_ASSERT(psock_create_from_descriptor(&s, vf_allocator_get(), FD) == STATUS_SUCCESS, "the socket is made");
    status st; int desc = 4711;
    if (MODE == 2)
    {
        the_desc = (int)vf_u32();
        VF_ASSUME(the_desc >= 0);
        st = psock_write_raw_descriptor(s, the_desc);
        VF_ASSERT((st == STATUS_SUCCESS) == (sent == 1), "success is one descriptor sent");
        VF_ASSERT(sent <= 1, "sent at most once");
        if (!st) VF_REACH("sent"); else if (sys_failed) VF_REACH("send failed");
    }
    else
    {
        passed = vf_below(4); creds = vf_bool();
        for (unsigned i = 0; i < 3; ++i) if (passed == i) VF_ASSUME(1);
        st = psock_read_raw_descriptor(s, &desc);
        if (MODE == 0)
        {
            bool good = calls == 1 && !sys_failed && passed == 1 && !creds;
            if (good) { VF_ASSERT(st == STATUS_SUCCESS && desc == SENT && open_count == 1, "the descriptor the peer sent is given out"); VF_REACH("received"); }
            else if (st == STATUS_SUCCESS)
            {
                VF_ASSERT(passed == 1 && desc == SENT && open_count == 1, "only one passed descriptor is given out");
                VF_REACH("received with credentials");
            }
            else
            {
                VF_ASSERT(open_count == 0, "a failing receive leaves no received descriptor open");
                if (calls) VF_ASSERT(desc < 0, "a failing receive gives no descriptor out");
                if (!calls) VF_REACH("wrong type"); else if (sys_failed) VF_REACH("receive failed");
                else if (passed == 0) VF_REACH("none passed"); else if (passed > 1) VF_REACH("more than one passed");
            }
        }
        else
        {
            if (st == STATUS_SUCCESS) { VF_ASSERT(calls == 1 && !sys_failed && arbitrary_ok && desc == given && !given_closed, "only a whole descriptor from the message is given out"); VF_REACH("received"); }
            else if (calls) { VF_ASSERT(desc < 0, "a failing receive gives no descriptor out"); VF_ASSERT(given_closed == arbitrary_fd, "and closes one it got"); VF_REACH("rejected"); }
        }
    }
    if (type != SOCK_DGRAM) VF_ASSERT(st == ERROR_PSOCK_UNSUPPORTED_TYPE && calls == 0, "only a datagram socket passes descriptors");
    if (sys_failed) VF_ASSERT(st != STATUS_SUCCESS, "a failure is reported");
    VF_ASSERT(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS && !fd_open && vf_live == 0, "the socket is released");
}
