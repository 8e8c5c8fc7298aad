/* P10: sockets over descriptors.
 * MODE 0 every method for every answer of the operating system, 1 made from
 * a listen address, 2 made from a host name and port. */
#include "../vf.h"
#include "../vf_sys.h"
#include "../vf_alloc.h"
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <rcpr/psock.h>
#include <rcpr/vtable.h>
RCPR_IMPORT_psock;
#ifndef STEPS
#define STEPS 2
#endif
#define CAP 8
static int fd_, opened, closed, type;
static int err; static long answer; static bool failed;
static const void* data; static size_t asked; static int calls; static unsigned which;
static uint8_t src[CAP];
static struct sockaddr_in6 name6; static socklen_t name_len; static const struct sockaddr* name;
int vf_sys_close(int fd)
{
    VF_ASSERT(fd == fd_ && opened && !closed, "the socket's descriptor is closed once");
    closed = 1;
    if (vf_bool()) { errno = EIO; return -1; }
    return 0;
}
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n)
{
    VF_ASSERT(fd == fd_ && opened && l == SOL_SOCKET && o == SO_TYPE && *n == sizeof(int), "the socket's type is asked for");
    if (type < 0) { errno = ENOTSOCK; return -1; }
    *(int*)v = type;
    return 0;
}
/* an answer: an error (would-block or any other) or a count 0..asked. */
static long os(void)
{
    ++calls;
    failed = vf_bool();
    if (failed)
    {
        VF_ASSUME(1);
        err = (int)vf_u32();
        VF_ASSUME(err > 0 && err < 200);
        errno = err;
        return -1;
    }
    answer = (long)vf_below((unsigned)asked + 1);
    return answer;
}
ssize_t vf_sys_read(int fd, void* b, size_t n)
{
    VF_ASSERT(which == 0 && fd == fd_ && b == data && n == asked, "the caller's read");
    long k = os();
    for (long i = 0; i < (long)CAP; ++i) if (i < k) ((uint8_t*)b)[i] = src[i];
    return k;
}
ssize_t vf_sys_write(int fd, const void* b, size_t n)
{
    VF_ASSERT(which == 1 && fd == fd_ && b == data && n == asked, "the caller's write");
    return os();
}
int vf_sys_accept(int fd, void* a, unsigned* n)
{
    VF_ASSERT(which == 2 && fd == fd_ && a == &name6 && n == &name_len, "the caller's accept");
    asked = 100;
    return (int)os();
}
static struct msghdr msg;
static int flags_, level_, opt_; static unsigned optlen_;
ssize_t vf_sys_sendmsg(int fd, const void* m, int fl)
{
    VF_ASSERT(which == 3 && fd == fd_ && m == &msg && fl == flags_, "the caller's message");
    return os();
}
ssize_t vf_sys_recvmsg(int fd, void* m, int fl)
{
    VF_ASSERT(which == 4 && fd == fd_ && m == &msg && fl == flags_, "the caller's message");
    return os();
}
int vf_sys_setsockopt(int fd, int l, int o, const void* v, unsigned n)
{
    VF_ASSERT(which == 5 && fd == fd_ && l == level_ && o == opt_ && v == data && n == optlen_, "the caller's option");
    asked = 0;
    return (int)os();
}
/* making sockets. */
static bool sys_failed; static int bound, listening, connected, lookups, fails_at, step;
static uint8_t addr4[4], addr6[16]; static unsigned port; static bool has4, has6; static int fam;
static const char* host = "host.example";
static bool fail_here(void) { if (vf_bool()) { VF_ASSUME(1); sys_failed = true; fails_at = step; errno = EINVAL; return true; } return false; }
int vf_sys_socket(int a, int b, int c)
{
    step = 1;
    VF_ASSERT(!opened && (a == AF_INET || (MODE == 2 && a == AF_INET6)) && b == SOCK_STREAM && (c == 0 || c == IPPROTO_TCP), "a stream socket of the right family");
    if (fail_here()) return -1;
    fam = a; opened = 1; type = SOCK_STREAM;
    return fd_;
}
int vf_sys_bind(int fd, const void* a, unsigned n)
{
    step = 2;
    VF_ASSERT(fd == fd_ && opened && !closed && a == name && n == name_len, "bound to the given address");
    if (fail_here()) return -1;
    bound = 1;
    return 0;
}
int vf_sys_listen(int fd, int n)
{
    step = 3;
    VF_ASSERT(fd == fd_ && opened && !closed && bound && n > 0, "listening once bound");
    if (fail_here()) return -1;
    listening = 1;
    return 0;
}
static char *list4[3], *list6[3]; static struct hostent he;
static uint8_t other[16];
void* vf_sys_gethostbyname2(const char* n, int af)
{
    ++lookups;
    VF_ASSERT(n == host && (af == AF_INET || af == AF_INET6), "the given host is looked up");
    if (af == AF_INET ? !has4 : !has6) return NULL;
    he.h_addrtype = af;
    he.h_length = af == AF_INET ? 4 : 16;
    list4[0] = (char*)addr4; list4[1] = (char*)other;
    list6[0] = (char*)addr6; list6[1] = (char*)other;
    he.h_addr_list = af == AF_INET ? list4 : list6;
    return &he;
}
int vf_sys_connect(int fd, const void* a, unsigned n)
{
    step = 4;
    VF_ASSERT(fd == fd_ && opened && !closed && !connected, "the socket is connected once");
    if (fam == AF_INET)
    {
        struct sockaddr_in x;
        VF_ASSERT(n == sizeof x && has4, "a whole IPv4 address");
        memcpy(&x, a, sizeof x);
        VF_ASSERT(x.sin_family == AF_INET && memcmp(&x.sin_addr, addr4, 4) == 0, "the host's address");
        VF_ASSERT(((uint8_t*)&x.sin_port)[0] == (uint8_t)(port >> 8) && ((uint8_t*)&x.sin_port)[1] == (uint8_t)port, "the given port");
    }
    else
    {
        struct sockaddr_in6 x;
        VF_ASSERT(n == sizeof x && has6, "a whole IPv6 address");
        memcpy(&x, a, sizeof x);
        VF_ASSERT(x.sin6_family == AF_INET6 && memcmp(&x.sin6_addr, addr6, 16) == 0, "the host's address");
        VF_ASSERT(((uint8_t*)&x.sin6_port)[0] == (uint8_t)(port >> 8) && ((uint8_t*)&x.sin6_port)[1] == (uint8_t)port, "the given port");
        VF_ASSERT(x.sin6_flowinfo == 0 && x.sin6_scope_id == 0, "nothing else is asked for");
    }
    if (fail_here()) return -1;
    connected = 1;
    return 0;
}
static psock* s;
static const RCPR_SYM(psock_vtable)* vt;
void vf_main(void)
{
    fd_ = vf_bool() ? 0 : 5;
    if (MODE == 0)
    {
        fd_ = (int)vf_u32();
        VF_ASSUME(fd_ >= 0);
        opened = 1;
        unsigned k = vf_below(4);
        type = k == 0 ? SOCK_STREAM : k == 1 ? SOCK_DGRAM : k == 2 ? SOCK_SEQPACKET : -1;
        for (unsigned i = 0; i < 3; ++i) if (k == i) VF_ASSUME(1);
        vf_may_fail = true;
        status st = psock_create_from_descriptor(&s, vf_allocator_get(), fd_);
        if (st != STATUS_SUCCESS) { VF_ASSERT(!closed && vf_failures > 0 && vf_live == 0, "a failed construction leaves the descriptor with the caller"); VF_REACH("construction failed"); return; }
        vf_may_fail = false;
        VF_ASSERT(psock_socket_type(s) == (k == 0 ? PSOCK_SOCKET_TYPE_STREAM : k == 1 ? PSOCK_SOCKET_TYPE_DATAGRAM : PSOCK_SOCKET_TYPE_OTHER), "the socket's type");
        VF_ASSERT(resource_vtable_read((const resource_vtable**)&vt, psock_resource_handle(s)) == STATUS_SUCCESS, "it has methods");
        for (int i = 0; i < STEPS; ++i)
        {
            uint8_t buf[CAP]; size_t n, m; int d = -7;
            for (int j = 0; j < CAP; ++j) { src[j] = vf_u8(); buf[j] = 0xa5; }
            asked = n = vf_below(CAP + 1);
            data = buf; calls = 0; which = vf_below(6); name_len = sizeof name6;
            bool wb = false;
            switch (which)
            {
            case 0:
                st = vt->read_fn(s, NULL, buf, &n, vf_bool());
                VF_ASSERT(calls == 1, "one call to the system");
                wb = failed && (err == EAGAIN || err == EWOULDBLOCK);
                VF_ASSERT(st == (wb ? ERROR_PSOCK_READ_WOULD_BLOCK : failed ? ERROR_PSOCK_READ_GENERAL : STATUS_SUCCESS), "a read's result");
                if (!st) { VF_ASSERT(n == (size_t)answer, "the number of bytes read"); if (n) VF_REACH("read"); else VF_REACH("nothing read"); }
                for (size_t j = 0; j < CAP; ++j) VF_ASSERT(buf[j] == (!st && j < n ? src[j] : 0xa5), "the bytes read");
                break;
            case 1:
                st = vt->write_fn(s, NULL, buf, &n);
                VF_ASSERT(calls == 1, "one call to the system");
                wb = failed && (err == EAGAIN || err == EWOULDBLOCK);
                VF_ASSERT(st == (wb ? ERROR_PSOCK_WRITE_WOULD_BLOCK : failed ? ERROR_PSOCK_WRITE_GENERAL : STATUS_SUCCESS), "a write's result");
                if (!st) { VF_ASSERT(n == (size_t)answer, "the number of bytes written"); VF_REACH("written"); }
                break;
            case 2:
                st = psock_accept(s, &d, (struct sockaddr*)&name6, &name_len);
                VF_ASSERT(calls == 1, "one call to the system");
                wb = failed && (err == EAGAIN || err == EWOULDBLOCK);
                VF_ASSERT(st == (wb ? ERROR_PSOCK_ACCEPT_WOULD_BLOCK : failed ? ERROR_PSOCK_ACCEPT_GENERAL : STATUS_SUCCESS), "an accept's result");
                VF_ASSERT(d == (st ? -7 : (int)answer), "the accepted descriptor");
                if (!st) VF_REACH("accepted");
                break;
            case 3:
                st = vt->sendmsg_fn(s, NULL, &msg, flags_ = (int)vf_u32());
                VF_ASSERT(calls == 1, "one call to the system");
                wb = failed && (err == EAGAIN || err == EWOULDBLOCK);
                VF_ASSERT(st == (wb ? ERROR_PSOCK_WRITE_WOULD_BLOCK : failed ? ERROR_PSOCK_SENDMSG_FAILED : STATUS_SUCCESS), "a sendmsg's result");
                if (!st) VF_REACH("message sent");
                break;
            case 4:
                m = 99;
                st = vt->recvmsg_fn(s, NULL, &msg, &m, flags_ = (int)vf_u32());
                VF_ASSERT(calls == 1, "one call to the system");
                wb = failed && (err == EAGAIN || err == EWOULDBLOCK);
                VF_ASSERT(st == (wb ? ERROR_PSOCK_READ_WOULD_BLOCK : failed ? ERROR_PSOCK_RECVMSG_FAILED : STATUS_SUCCESS), "a recvmsg's result");
                if (!st) { VF_ASSERT(m == (size_t)answer, "the number of bytes received"); VF_REACH("message received"); }
                break;
            default:
                level_ = (int)vf_u32(); opt_ = (int)vf_u32(); optlen_ = vf_u32();
                st = psock_setsockopt(s, level_, opt_, buf, optlen_);
                VF_ASSERT(calls == 1, "one call to the system");
                VF_ASSERT(st == (failed ? ERROR_PSOCK_SETSOCKOPT : STATUS_SUCCESS), "a setsockopt's result");
                if (!st) VF_REACH("option set");
                break;
            }
            if (wb) VF_REACH("would block"); else if (failed) VF_REACH("failed");
            VF_ASSERT(!closed, "the descriptor stays open");
        }
    }
    else
    {
        status st;
        vf_may_fail = true;
#ifdef NULLOUT
        s = (psock*)&msg;       /* whatever was there */
#endif
        if (MODE == 1)
        {
            name = (struct sockaddr*)&name6; name_len = (socklen_t)vf_below(200);
            st = psock_create_from_listen_address(&s, vf_allocator_get(), name, name_len);
            if (!st) VF_ASSERT(bound && listening, "the socket listens at its address");
            else if (fails_at == 1) { VF_ASSERT(st == ERROR_PSOCK_CREATE_FROM_ADDRESS_SOCKET_CREATE, "no socket"); VF_REACH("no socket"); }
            else if (st == ERROR_PSOCK_CREATE_FROM_ADDRESS_CLOSE) VF_REACH("close failed");
            else if (fails_at == 2) { VF_ASSERT(st == ERROR_PSOCK_CREATE_FROM_ADDRESS_BIND, "not bound"); VF_REACH("not bound"); }
            else if (fails_at == 3) { VF_ASSERT(st == ERROR_PSOCK_CREATE_FROM_ADDRESS_LISTEN, "not listening"); VF_REACH("not listening"); }
            else { VF_ASSERT(vf_failures > 0, "a failure has a cause"); VF_REACH("out of memory"); }
        }
        else
        {
            has4 = vf_bool(); has6 = vf_bool(); port = vf_u16();
            for (int i = 0; i < 4; ++i) addr4[i] = vf_u8();
            for (int i = 0; i < 16; ++i) addr6[i] = vf_u8();
            st = psock_create_from_hostname_and_port(&s, vf_allocator_get(), host, port);
            if (!has4 && !has6) { VF_ASSERT(st == ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE && !opened, "an unknown host"); VF_REACH("unknown host"); }
            else if (!st) { VF_ASSERT(connected && lookups >= 1 && fam == (has4 ? AF_INET : AF_INET6), "the socket is connected to the host"); if (has4) VF_REACH("IPv4"); else VF_REACH("IPv6"); }
            else if (fails_at == 1) { VF_ASSERT(st == ERROR_PSOCK_SOCKET_CREATE, "no socket"); VF_REACH("no socket"); }
            else if (fails_at == 4) { VF_ASSERT(st == ERROR_PSOCK_CONNECTION_REFUSED, "refused"); VF_REACH("refused"); }
            else { VF_ASSERT(vf_failures > 0, "a failure has a cause"); VF_REACH("out of memory"); }
        }
        if (sys_failed) VF_ASSERT(st != STATUS_SUCCESS, "a failure is reported");
        if (st != STATUS_SUCCESS)
        {
            VF_ASSERT(closed == opened, "a failed construction closes the descriptor it opened");
            VF_ASSERT(vf_live == 0, "and keeps no memory");
#ifdef NULLOUT
            VF_ASSERT(s == NULL, "and gives nothing out");
#endif
            return;
        }
        VF_ASSERT(opened && !closed, "the socket has its descriptor");
        VF_ASSERT(psock_socket_type(s) == PSOCK_SOCKET_TYPE_STREAM, "it is a stream");
        vf_may_fail = false;
    }
    VF_ASSERT(resource_release(psock_resource_handle(s)) == STATUS_SUCCESS, "the socket is released");
    VF_ASSERT(closed == 1 && vf_live == 0, "its descriptor is closed with it");
    VF_REACH("released");
}
