/* MODE 0: closing the other descriptors, observed at every
 * descriptor below FD_SETSIZE (HIGH: at and above it).  MODE 1: the rest. */
#include "../vf.h"
#include "../vf_sys.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/select.h>
#include <rcpr/socket_utilities.h>
#define TABLE (FD_SETSIZE + 16)
static unsigned char hit[TABLE];
static unsigned closes;
static bool std_closed[3];
int vf_sys_close(int fd)
{
    ++closes;
    if (MODE == 0) { if (fd >= 0 && fd < TABLE) hit[fd] = 1; }
    else { VF_ASSERT(fd >= 0 && fd <= 2, "only a standard descriptor is closed"); std_closed[fd] = true; }
    if (MODE == 0) return 0;
    if (vf_bool()) { errno = EIO; return -1; }
    return 0;
}
static int flags, set_to, the_fd;
static unsigned gets, sets;
static bool get_fails, set_fails;
int vf_sys_fcntl(int fd, int cmd, long arg)
{
    VF_ASSERT(fd == the_fd, "the named descriptor is changed");
    if (cmd == F_GETFL)
    {
        ++gets;
        if (get_fails) { errno = EBADF; return -1; }
        return flags;
    }
    VF_ASSERT(cmd == F_SETFL, "the status flags are set");
    ++sets;
    if (set_fails) { errno = EBADF; return -1; }
    set_to = (int)arg;
    return 0;
}
static int dom, typ, pro;
static bool pair_fails;
int vf_sys_socketpair(int a, int b, int c, int* sv)
{
    VF_ASSERT(a == dom && b == typ && c == pro, "the socket pair is made as asked");
    if (pair_fails) { errno = EMFILE; return -1; }
    sv[0] = 11; sv[1] = 12;
    return 0;
}
void vf_main(void)
{
    if (MODE == 0)
    {
        int fd = -1;
        for (int b = 1; b < FD_SETSIZE; b *= 2) if (vf_bool()) { VF_ASSUME(1); fd += b; } /* a path per value */
        VF_ASSERT(RCPR_SYM(socket_utility_close_other_fds)(fd) == STATUS_SUCCESS, "closing the others succeeds");
#ifdef HIGH
        for (int i = FD_SETSIZE; i < TABLE; ++i) VF_ASSERT(hit[i], "a descriptor at or above FD_SETSIZE is closed");
#else
        for (int i = 0; i < FD_SETSIZE; ++i) VF_ASSERT(hit[i] == (i > fd), "exactly the descriptors above the given one are closed");
#endif
        VF_REACH("others");
        return;
    }
    switch (vf_below(3))
    {
        case 0:
            VF_ASSERT(RCPR_SYM(socket_utility_close_standard_fds)() == STATUS_SUCCESS, "closing the standard descriptors succeeds");
            VF_ASSERT(std_closed[0] && std_closed[1] && std_closed[2], "each standard descriptor is closed");
            VF_REACH("standard");
            break;
        case 1:
        {
            flags = vf_i32();
            VF_ASSUME(flags >= 0);
            the_fd = vf_i32();
            VF_ASSUME(the_fd >= 0);
            get_fails = vf_bool(); set_fails = vf_bool();
            status s = RCPR_SYM(socket_utility_set_nonblock)(the_fd);
            if (s == STATUS_SUCCESS)
            {
                VF_ASSERT(!get_fails && (sets == 0 ? (flags & O_NONBLOCK) : set_to == (flags | O_NONBLOCK)), "non-blocking is added and the other flags are kept");
                VF_REACH("non-blocking");
            }
            else
            {
                VF_ASSERT(get_fails || set_fails, "it fails only when the system does");
                VF_REACH("flags failed");
            }
            break;
        }
        default:
        {
            int l = -1, r = -1;
            dom = vf_i32(); typ = vf_i32(); pro = vf_i32(); pair_fails = vf_bool();
            status s = RCPR_SYM(socket_utility_socketpair)(dom, typ, pro, &l, &r);
            VF_ASSERT((s == STATUS_SUCCESS) == !pair_fails, "success exactly when the system made the pair");
            if (s == STATUS_SUCCESS) { VF_ASSERT(l == 11 && r == 12, "both ends are given out"); VF_REACH("pair"); }
            else { VF_ASSERT(l == -1 && r == -1, "nothing is given out"); VF_REACH("pair failed"); }
            break;
        }
    }
}
