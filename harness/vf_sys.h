/* The library's system calls are renamed (-Dclose=vf_sys_close ...) in every
 * build made here, so nothing it does reaches the real system.  Each has a
 * weak default that reports an unexpected call; harnesses define the ones
 * they model. */
#pragma once
#include "vf.h"
#include <sys/types.h>
int vf_sys_close(int fd);
ssize_t vf_sys_read(int fd, void* b, size_t n);
ssize_t vf_sys_write(int fd, const void* b, size_t n);
ssize_t vf_sys_send(int fd, const void* b, size_t n, int fl);
ssize_t vf_sys_recv(int fd, void* b, size_t n, int fl);
ssize_t vf_sys_readv(int fd, const void* iov, int n);
ssize_t vf_sys_writev(int fd, const void* iov, int n);
int vf_sys_dup(int a);
int vf_sys_dup2(int a, int b);
int vf_sys_dup3(int a, int b, int fl);
int vf_sys_socket(int a, int b, int c);
int vf_sys_socketpair(int a, int b, int c, int* sv);
int vf_sys_setsockopt(int fd, int l, int o, const void* v, unsigned n);
int vf_sys_getsockopt(int fd, int l, int o, void* v, unsigned* n);
ssize_t vf_sys_sendmsg(int fd, const void* m, int fl);
ssize_t vf_sys_recvmsg(int fd, void* m, int fl);
int vf_sys_epoll_ctl(int e, int op, int fd, void* ev);
int vf_sys_epoll_wait(int e, void* ev, int n, int t);
int vf_sys_epoll_create1(int fl);
int vf_sys_epoll_create(int n);
int vf_sys_poll(void* p, unsigned long n, int t);
int vf_sys_pthread_mutex_unlock(void* m);
int vf_sys_pthread_mutex_lock(void* m);
int vf_sys_pthread_mutex_trylock(void* m);
int vf_sys_pthread_mutex_init(void* m, const void* a);
int vf_sys_pthread_mutex_destroy(void* m);
int vf_sys_pthread_join(unsigned long t, void** r);
int vf_sys_pthread_detach(unsigned long t);
int vf_sys_pthread_create(unsigned long* t, const void* a, void* (*f)(void*), void* c);
int vf_sys_pthread_cond_wait(void* c, void* m);
int vf_sys_pthread_cond_signal(void* c);
int vf_sys_pthread_cond_init(void* c, const void* a);
int vf_sys_pthread_cond_destroy(void* c);
int vf_sys_pthread_cond_broadcast(void* c);
int vf_sys_pthread_attr_setstacksize(void* a, size_t n);
int vf_sys_pthread_attr_init(void* a);
int vf_sys_pthread_attr_destroy(void* a);
int vf_sys_munmap(void* p, size_t n);
void* vf_sys_mmap(void* p, size_t n, int pr, int fl, int fd, long off);
int vf_sys_mprotect(void* p, size_t n, int pr);
int vf_sys_listen(int fd, int n);
int vf_sys_connect(int fd, const void* a, unsigned n);
int vf_sys_bind(int fd, const void* a, unsigned n);
int vf_sys_accept(int fd, void* a, unsigned* n);
int vf_sys_accept4(int fd, void* a, unsigned* n, int fl);
int vf_sys_shutdown(int fd, int how);
int vf_sys_fcntl(int fd, int cmd, long arg);
int vf_sys_ioctl(int fd, unsigned long cmd, long arg);
void* vf_sys_gethostbyname2(const char* n, int af);
void* vf_sys_gethostbyname(const char* n);
void* vf_sys_malloc(size_t n);
void* vf_sys_calloc(size_t m, size_t n);
void* vf_sys_realloc(void* p, size_t n);
void vf_sys_free(void* p);
ssize_t vf_sys_sendto(int fd, const void* b, size_t n, int fl, const void* a, unsigned al);
ssize_t vf_sys_recvfrom(int fd, void* b, size_t n, int fl, void* a, unsigned* al);
int vf_sys_epoll_pwait(int e, void* ev, int n, int t, const void* m);
