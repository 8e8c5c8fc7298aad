/* A descriptor table: file[i] is the identity of the open file descriptor i
 * refers to, 0 when it is closed. */
#include "../vf.h"
#include "../vf_sys.h"
#include <errno.h>
#include <fcntl.h>
#ifndef NFD
#define NFD 8
#endif
static unsigned char file[NFD], before[NFD];
static bool may_fail;
static unsigned sys_failures;
static bool sys_fails(int e)
{
    if (may_fail && vf_bool()) { ++sys_failures; errno = e; return true; }
    return false;
}
static bool is_open(int fd) { return fd >= 0 && fd < NFD && file[fd] != 0; }
static int lowest(int from)
{
    for (int i = from; i < NFD; ++i) if (!file[i]) return i;
    return -1;
}
int vf_sys_close(int fd)
{
    if (!is_open(fd)) { errno = EBADF; return -1; }
    file[fd] = 0;
    return 0;
}
int vf_sys_dup2(int a, int b)
{
    if (!is_open(a) || b < 0 || b >= NFD) { errno = EBADF; return -1; }
    if (sys_fails(EIO)) return -1;
    file[b] = file[a];
    return b;
}
int vf_sys_dup3(int a, int b, int fl) { if (a == b) { errno = EINVAL; return -1; } (void)fl; return vf_sys_dup2(a, b); }
static int dup_from(int a, int from)
{
    if (!is_open(a)) { errno = EBADF; return -1; }
    if (from < 0 || from >= NFD) { errno = EINVAL; return -1; }
    if (sys_fails(EMFILE)) return -1;
    int n = lowest(from);
    if (n < 0) { ++sys_failures; errno = EMFILE; return -1; }
    file[n] = file[a];
    return n;
}
int vf_sys_dup(int a) { return dup_from(a, 0); }
