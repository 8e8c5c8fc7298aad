#include "vf_sys.h"
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#define UNEXPECTED(n) VF_ASSERT(0, "unexpected system call " n)
__attribute__((weak)) int vf_sys_close(int fd)
{
    UNEXPECTED("close"); return (int)-1;
}
__attribute__((weak)) ssize_t vf_sys_read(int fd, void* b, size_t n)
{
    UNEXPECTED("read"); return (ssize_t)-1;
}
__attribute__((weak)) ssize_t vf_sys_write(int fd, const void* b, size_t n)
{
    UNEXPECTED("write"); return (ssize_t)-1;
}
__attribute__((weak)) ssize_t vf_sys_send(int fd, const void* b, size_t n, int fl)
{
    (void)fl; return vf_sys_write(fd, b, n);
}
__attribute__((weak)) ssize_t vf_sys_recv(int fd, void* b, size_t n, int fl)
{
    (void)fl; return vf_sys_read(fd, b, n);
}
__attribute__((weak)) ssize_t vf_sys_readv(int fd, const void* iov, int n)
{
    const struct iovec* v = iov; size_t k = 0, all = 0; ssize_t r; unsigned char* b;
    for (int i = 0; i < n; ++i) all += v[i].iov_len;
    b = malloc(all ? all : 1); r = vf_sys_read(fd, b, all);
    for (int i = 0; r > 0 && i < n && k < (size_t)r; k += v[i++].iov_len)
        memcpy(v[i].iov_base, b + k, v[i].iov_len < (size_t)r - k ? v[i].iov_len : (size_t)r - k);
    free(b);
    return r;
}
__attribute__((weak)) ssize_t vf_sys_writev(int fd, const void* iov, int n)
{
    const struct iovec* v = iov; size_t k = 0, all = 0; ssize_t r; unsigned char* b;
    for (int i = 0; i < n; ++i) all += v[i].iov_len;
    b = malloc(all ? all : 1);
    for (int i = 0; i < n; k += v[i++].iov_len) memcpy(b + k, v[i].iov_base, v[i].iov_len);
    r = vf_sys_write(fd, b, all);
    free(b);
    return r;
}
__attribute__((weak)) int vf_sys_dup(int a)
{
    UNEXPECTED("dup"); return (int)-1;
}
__attribute__((weak)) int vf_sys_dup2(int a, int b)
{
    UNEXPECTED("dup2"); return (int)-1;
}
__attribute__((weak)) int vf_sys_dup3(int a, int b, int fl)
{
    if (fl || a == b) UNEXPECTED("dup3");
    return vf_sys_dup2(a, b);
}
__attribute__((weak)) int vf_sys_socket(int a, int b, int c)
{
    UNEXPECTED("socket"); return (int)-1;
}
__attribute__((weak)) int vf_sys_socketpair(int a, int b, int c, int* sv)
{
    UNEXPECTED("socketpair"); return (int)-1;
}
__attribute__((weak)) int vf_sys_setsockopt(int fd, int l, int o, const void* v, unsigned n)
{
    UNEXPECTED("setsockopt"); return (int)-1;
}
__attribute__((weak)) int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n)
{
    UNEXPECTED("getsockopt"); return (int)-1;
}
__attribute__((weak)) ssize_t vf_sys_sendmsg(int fd, const void* m, int fl)
{
    UNEXPECTED("sendmsg"); return (ssize_t)-1;
}
__attribute__((weak)) ssize_t vf_sys_recvmsg(int fd, void* m, int fl)
{
    UNEXPECTED("recvmsg"); return (ssize_t)-1;
}
__attribute__((weak)) int vf_sys_epoll_ctl(int e, int op, int fd, void* ev)
{
    UNEXPECTED("epoll_ctl"); return (int)-1;
}
__attribute__((weak)) int vf_sys_epoll_wait(int e, void* ev, int n, int t)
{
    UNEXPECTED("epoll_wait"); return (int)-1;
}
__attribute__((weak)) int vf_sys_epoll_create1(int fl)
{
    UNEXPECTED("epoll_create1"); return (int)-1;
}
__attribute__((weak)) int vf_sys_epoll_create(int n)
{
    if (n <= 0) UNEXPECTED("epoll_create");
    return vf_sys_epoll_create1(0);
}
__attribute__((weak)) int vf_sys_poll(void* p, unsigned long n, int t)
{
    UNEXPECTED("poll"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_mutex_unlock(void* m)
{
    UNEXPECTED("pthread_mutex_unlock"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_mutex_lock(void* m)
{
    UNEXPECTED("pthread_mutex_lock"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_mutex_trylock(void* m)
{
    UNEXPECTED("pthread_mutex_trylock"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_mutex_init(void* m, const void* a)
{
    UNEXPECTED("pthread_mutex_init"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_mutex_destroy(void* m)
{
    UNEXPECTED("pthread_mutex_destroy"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_join(unsigned long t, void** r)
{
    UNEXPECTED("pthread_join"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_detach(unsigned long t)
{
    UNEXPECTED("pthread_detach"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_create(unsigned long* t, const void* a, void* (*f)(void*), void* c)
{
    UNEXPECTED("pthread_create"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_cond_wait(void* c, void* m)
{
    UNEXPECTED("pthread_cond_wait"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_cond_signal(void* c)
{
    UNEXPECTED("pthread_cond_signal"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_cond_init(void* c, const void* a)
{
    UNEXPECTED("pthread_cond_init"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_cond_destroy(void* c)
{
    UNEXPECTED("pthread_cond_destroy"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_cond_broadcast(void* c)
{
    UNEXPECTED("pthread_cond_broadcast"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_attr_setstacksize(void* a, size_t n)
{
    UNEXPECTED("pthread_attr_setstacksize"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_attr_init(void* a)
{
    UNEXPECTED("pthread_attr_init"); return (int)-1;
}
__attribute__((weak)) int vf_sys_pthread_attr_destroy(void* a)
{
    UNEXPECTED("pthread_attr_destroy"); return (int)-1;
}
__attribute__((weak)) int vf_sys_munmap(void* p, size_t n)
{
    UNEXPECTED("munmap"); return (int)-1;
}
__attribute__((weak)) void* vf_sys_mmap(void* p, size_t n, int pr, int fl, int fd, long off)
{
    UNEXPECTED("mmap"); return (void*)-1;
}
__attribute__((weak)) int vf_sys_mprotect(void* p, size_t n, int pr)
{
    UNEXPECTED("mprotect"); return (int)-1;
}
__attribute__((weak)) int vf_sys_listen(int fd, int n)
{
    UNEXPECTED("listen"); return (int)-1;
}
__attribute__((weak)) int vf_sys_connect(int fd, const void* a, unsigned n)
{
    UNEXPECTED("connect"); return (int)-1;
}
__attribute__((weak)) int vf_sys_bind(int fd, const void* a, unsigned n)
{
    UNEXPECTED("bind"); return (int)-1;
}
__attribute__((weak)) int vf_sys_accept(int fd, void* a, unsigned* n)
{
    UNEXPECTED("accept"); return (int)-1;
}
__attribute__((weak)) int vf_sys_accept4(int fd, void* a, unsigned* n, int fl)
{
    UNEXPECTED("accept4"); return (int)-1;
}
__attribute__((weak)) int vf_sys_shutdown(int fd, int how)
{
    UNEXPECTED("shutdown"); return (int)-1;
}
__attribute__((weak)) int vf_sys_fcntl(int fd, int cmd, long arg)
{
    UNEXPECTED("fcntl"); return (int)-1;
}
__attribute__((weak)) int vf_sys_ioctl(int fd, unsigned long cmd, long arg)
{
    UNEXPECTED("ioctl"); return (int)-1;
}
__attribute__((weak)) void* vf_sys_gethostbyname2(const char* n, int af)
{
    UNEXPECTED("gethostbyname2"); return (void*)-1;
}
__attribute__((weak)) void* vf_sys_gethostbyname(const char* n)
{
    UNEXPECTED("gethostbyname"); return (void*)-1;
}
__attribute__((weak)) void* vf_sys_malloc(size_t n) { return malloc(n); }
__attribute__((weak)) void* vf_sys_calloc(size_t m, size_t n) { return calloc(m, n); }
__attribute__((weak)) void* vf_sys_realloc(void* p, size_t n) { return realloc(p, n); }
__attribute__((weak)) void vf_sys_free(void* p) { free(p); }
__attribute__((weak)) ssize_t vf_sys_sendto(int fd, const void* b, size_t n, int fl, const void* a, unsigned al)
{
    if (a || al) UNEXPECTED("sendto with an address");
    return vf_sys_send(fd, b, n, fl);
}
__attribute__((weak)) ssize_t vf_sys_recvfrom(int fd, void* b, size_t n, int fl, void* a, unsigned* al)
{
    if (a || al) UNEXPECTED("recvfrom with an address");
    return vf_sys_recv(fd, b, n, fl);
}
__attribute__((weak)) int vf_sys_epoll_pwait(int e, void* ev, int n, int t, const void* m)
{
    if (m) UNEXPECTED("epoll_pwait with a signal mask");
    return vf_sys_epoll_wait(e, ev, n, t);
}
