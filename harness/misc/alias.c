/* I01: the names that importing a module gives its functions (vf_alias.h has one
 * call per public function, made from the headers on every run). The functions
 * themselves are stood in for by ones that look at what they are given.
 * PLAIN: imported without a prefix. */
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <rcpr/function_decl.h>
#undef RCPR_SYM
#define RCPR_SYM(x) vfstub_ ## x
#include "../vf.h"
static uint64_t vf_want[8], vf_answer;
static unsigned vf_args, which, reached, looked;
/* what the compiler must not see through. */
#define VF_APART __attribute__((noinline))
static void vf_here(unsigned k)
{
    VF_ASSERT(k == which, "the name stands for the function of that name");
    ++reached;
}
static void vf_arg(unsigned i, uint64_t v)
{
    VF_ASSERT(i < vf_args && v == vf_want[i], "the function gets the caller's arguments, in order");
    ++looked;
}
static void vf_got(uint64_t v, uint64_t want) { VF_ASSERT(v == want, "the caller gets the function's answer"); }
#define vf_give(i) vf_want[i]
#ifdef PLAIN
/* string's names are the C library's, so it is always given a prefix. */
#define VF_ALIAS(n) n
#define VF_IMPORT_ALL VF_PLAIN_IMPORTS
#else
#define VF_ALIAS(n) al_ ## n
#define VF_IMPORT_ALL VF_IMPORTS(VF_IMPORT)
#define VF_IMPORT(m) RCPR_IMPORT_ ## m ## _as(al);
#endif
#include "vf_alias.h"
enum { MOVE = 1000, SETFDS, STRCATV };
static int d[3]; static const char* t[3]; static int n[4];
static unsigned len;
VF_APART status vfstub_vsocket_utility_move_descriptors(int threshold, int* desc, va_list args)
{
    VF_ASSERT(which == MOVE, "the name stands for the function of that name");
    VF_ASSERT(threshold == n[0] && desc == &d[0], "the function gets the caller's arguments, in order");
    for (unsigned i = 1; i < len; ++i) VF_ASSERT(va_arg(args, int*) == &d[i], "every descriptor is passed on, in order");
    VF_ASSERT(va_arg(args, int*) == NULL, "and the end of the list");
    ++reached;
    return (status)vf_answer;
}
VF_APART status vfstub_vsocket_utility_setfds(int curr, int mapped, va_list args)
{
    VF_ASSERT(which == SETFDS, "the name stands for the function of that name");
    VF_ASSERT(curr == n[0] && mapped == n[1], "the function gets the caller's arguments, in order");
    for (unsigned i = 1; i < len; ++i) VF_ASSERT(va_arg(args, int) == n[2 * i] && va_arg(args, int) == n[2 * i + 1], "every pair is passed on, in order");
    VF_ASSERT(va_arg(args, int) == -1, "and the end of the list");
    ++reached;
    return (status)vf_answer;
}
VF_APART status vfstub_vstrcat(char** out, vfstub_allocator* a, const char* first, va_list args)
{
    if (which != STRCATV)
    {
        /* passed on as it is. */
        VF_ASSERT(out == (char**)&t[0] && a == (vfstub_allocator*)&d[0] && first == (const char*)&n[1], "the function gets the caller's arguments, in order");
        VF_ASSERT(va_arg(args, const char*) == t[1], "and its list");
        ++reached;
        return (status)vf_answer;
    }
    VF_ASSERT(out == (char**)&t[0] && a == (vfstub_allocator*)&d[0] && first == t[0], "the function gets the caller's arguments, in order");
    for (unsigned i = 1; i < len; ++i) VF_ASSERT(va_arg(args, const char*) == t[i], "every string is passed on, in order");
    VF_ASSERT(va_arg(args, const char*) == NULL, "and the end of the list");
    ++reached;
    return (status)vf_answer;
}

#ifndef PLAIN
static status passed(char** out, vfstub_allocator* a, const char* first, ...)
{
    va_list args; status st;
    va_start(args, first);
    st = al_vstrcat(out, a, first, args);
    va_end(args);
    return st;
}
#endif
void vf_main(void)
{
#ifdef PLAIN
    unsigned all = VF_PLAIN_ALIASES, lists = 2;
#else
    unsigned all = VF_ALIASES, lists = 4;
#endif
    unsigned k = vf_below(all + lists);
    VF_ASSUME(1);
    vf_answer = vf_u64();
    for (unsigned i = 0; i < 8; ++i) vf_want[i] = vf_u64();
    which = k;
    if (k < all)
    {
        vf_call(k);
        VF_ASSERT(looked == vf_args, "it gets all of them");
        VF_REACH("one call");
    }
    else
    {
        status st = 0;
        for (int i = 0; i < 4; ++i) n[i] = (int)vf_u32();
        for (int i = 0; i < 3; ++i) t[i] = (const char*)&n[i];
        len = 1 + vf_below(2);
        VF_ASSUME(1);
        if (k == all) { which = MOVE; st = len == 1 ? VF_ALIAS(socket_utility_move_descriptors)(n[0], &d[0], NULL) : VF_ALIAS(socket_utility_move_descriptors)(n[0], &d[0], &d[1], NULL); }
        else if (k == all + 1) { which = SETFDS; st = len == 1 ? VF_ALIAS(socket_utility_setfds)(n[0], n[1], -1) : VF_ALIAS(socket_utility_setfds)(n[0], n[1], n[2], n[3], -1); }
#ifndef PLAIN
        else if (k == all + 2) { which = STRCATV; st = len == 1 ? al_strcatv((char**)&t[0], (vfstub_allocator*)&d[0], t[0], NULL) : al_strcatv((char**)&t[0], (vfstub_allocator*)&d[0], t[0], t[1], NULL); }
        else st = passed((char**)&t[0], (vfstub_allocator*)&d[0], (const char*)&n[1], t[1]);
#endif
        VF_ASSERT(st == (status)vf_answer, "the caller gets the function's answer");
        VF_REACH("a list");
    }
    VF_ASSERT(reached == 1, "the function is called once");
}
