/* Moving (MODE 0) or mapping (MODE 1) N descriptors over a table of NFD.
 * LONG: twelve descriptors next to each other, in one of several orders. */
#ifdef LONG
#define NFD 40
#define MAXN 12
#else
#define NFD 7
#define MAXN 3
#endif
#include "fds.h"
#include <rcpr/socket_utilities.h>
#include "../psock/step.h"
int vf_sys_fcntl(int fd, int cmd, long arg)
{
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_from(fd, (int)arg);
    if (!is_open(fd)) { errno = EBADF; return -1; }
    return 0;
}
void vf_main(void)
{
    int src[MAXN], dst[MAXN], v[MAXN], th = 0;
#ifdef LONG
    unsigned n = MAXN;
    int first = (int)step_len(4) * 5, how = (int)step_len(15);
    for (int i = 0; i < NFD; ++i) before[i] = file[i] = (i >= first && i < first + MAXN) || i % 3 == 0 ? i + 1 : 0;
    for (int i = 0; i < MAXN; ++i)
    {
        /* as they are, the other way round, every fifth, or turned by some. */
        int p = how == 0 ? i : how == 1 ? MAXN - 1 - i : how == 2 ? (i * 5 + 1) % MAXN : (i + how - 2) % MAXN;
        v[i] = src[i] = first + p;
    }
#else
    unsigned n = 1 + vf_below(3);
    for (int i = 0; i < NFD; ++i) before[i] = file[i] = vf_bool() ? i + 1 : 0;
    for (unsigned i = 0; i < n; ++i)
    {
        v[i] = src[i] = vf_below(NFD);
        VF_ASSUME(file[src[i]] != 0);
        for (unsigned j = 0; j < i; ++j) VF_ASSUME(src[i] != src[j]);
    }
#endif
    may_fail = true;
    status s;
    if (MODE == 0)
    {
        th = vf_below(NFD - n + 1);
#ifdef LONG
        th = 3 * (int)step_len(10);
        s = RCPR_SYM(socket_utility_move_descriptors)(th, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], &v[8], &v[9], &v[10], &v[11], NULL);
#else
        s = n == 1 ? RCPR_SYM(socket_utility_move_descriptors)(th, &v[0], NULL)
          : n == 2 ? RCPR_SYM(socket_utility_move_descriptors)(th, &v[0], &v[1], NULL)
                   : RCPR_SYM(socket_utility_move_descriptors)(th, &v[0], &v[1], &v[2], NULL);
#endif
    }
    else
    {
        for (unsigned i = 0; i < n; ++i)
        {
#ifdef LONG
            dst[i] = (int)i;
            if (first < MAXN) dst[i] = src[i];
            continue;
#endif
            dst[i] = vf_below(NFD);
            for (unsigned j = 0; j < i; ++j) VF_ASSUME(dst[i] != dst[j]);
        }
        /* the documented order of use: nothing is mapped over a descriptor
         * that is still to be mapped. */
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j)
            if (i != j) VF_ASSUME(dst[i] != src[j]);
#ifdef LONG
        s = RCPR_SYM(socket_utility_setfds)(v[0], dst[0], v[1], dst[1], v[2], dst[2], v[3], dst[3], v[4], dst[4], v[5], dst[5],
            v[6], dst[6], v[7], dst[7], v[8], dst[8], v[9], dst[9], v[10], dst[10], v[11], dst[11], -1);
#else
        s = n == 1 ? RCPR_SYM(socket_utility_setfds)(v[0], dst[0], -1)
          : n == 2 ? RCPR_SYM(socket_utility_setfds)(v[0], dst[0], v[1], dst[1], -1)
                   : RCPR_SYM(socket_utility_setfds)(v[0], dst[0], v[1], dst[1], v[2], dst[2], -1);
#endif
    }
    may_fail = false;
    for (unsigned i = 0; i < n; ++i)
    {
        if (MODE == 0)
        {
            VF_ASSERT(is_open(v[i]) && file[v[i]] == before[src[i]], "the variable names a descriptor of its own file");
            for (unsigned j = 0; j < i; ++j) VF_ASSERT(v[i] != v[j], "no two variables name one descriptor");
            if (s == STATUS_SUCCESS) VF_ASSERT(v[i] >= th, "the descriptor is at or above the threshold");
        }
        else if (s == STATUS_SUCCESS)
            VF_ASSERT(file[dst[i]] == before[src[i]], "the target refers to its source's file");
    }
    VF_ASSERT((s == STATUS_SUCCESS) == (sys_failures == 0), "success exactly when every system call succeeded");
    for (int f = 0; f < NFD; ++f)
    {
        bool is_src = false, is_dst = false;
        unsigned open = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            if (src[i] == f) is_src = true;
            if (MODE == 0 ? v[i] == f || (f >= th && (unsigned)f < th + n) : dst[i] == f) is_dst = true;
        }
        if (!is_src && !is_dst) VF_ASSERT(file[f] == before[f], "a descriptor outside the lists is unaffected");
        if (is_src)
        {
            for (int g = 0; g < NFD; ++g) if (file[g] == before[f]) ++open;
            VF_ASSERT(open >= 1, "no listed file is lost");
            if (s == STATUS_SUCCESS) VF_ASSERT(open == 1, "a source that moved is closed");
            if (MODE == 0) VF_ASSERT(open == 1, "no listed file is left open twice");
        }
    }
    if (s == STATUS_SUCCESS) { VF_REACH("moved"); if (n == 3) VF_REACH("three"); }
    else VF_REACH("failed");
    for (unsigned i = 0; i < n; ++i)
    {
        if (MODE == 0 && s == STATUS_SUCCESS && src[i] == th + (int)i) VF_REACH("already in place");
        if (MODE == 0 && s == STATUS_SUCCESS && i > 0 && src[i] == th) VF_REACH("source at another's target");
        if (MODE == 1 && s == STATUS_SUCCESS && src[i] == dst[i]) VF_REACH("already in place");
    }
}
