/* A symbolic, exactly allocated, zero terminated string of length <= N. */
#pragma once
#include "../vf_alloc.h"
#include <string.h>
#include <rcpr/string.h>
RCPR_IMPORT_string_as(rs);
#ifdef LONG
#define N (3 * LONG)
#endif
#ifndef N
#define N 4
#endif
static inline bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

typedef struct { char* s; unsigned len; char o[N + 1]; } sstr;
#ifdef LONG
/* a long string: a run of whitespace, a body and another run, each of one of
 * several lengths; three characters of the body are symbolic. */
static inline unsigned run(void)
{
    static const unsigned lens[] = { 0, 2, LONG };
    unsigned k = vf_below(3);
    for (unsigned i = 0; i < 2; ++i) if (k == i) return lens[i];
    return lens[2];
}
static inline unsigned anylen(void) { return 0; }
static inline void mk(sstr* x, unsigned unused)
{
    (void)unused;
    unsigned a = run(), b = run(), c = run();
    x->len = a + b + c;
    x->s = malloc(x->len + 1);
    VF_ASSUME(x->s != NULL);
    for (unsigned i = 0; i < x->len; ++i)
    {
        char ch = i < a || i >= a + b ? (i % 3 ? ' ' : '\t') : (char)('a' + i % 26);
        if (b && (i == a || i == a + b / 2 || i == a + b - 1)) { ch = (char)vf_u8(); VF_ASSUME(ch != 0); }
        x->s[i] = x->o[i] = ch;
    }
    x->s[x->len] = x->o[x->len] = 0;
}
#else
static inline void mk(sstr* x, unsigned len)
{
    x->len = len;
    x->s = malloc(len + 1);
    VF_ASSUME(x->s != NULL);
    for (unsigned i = 0; i < len; ++i)
    {
        char c = (char)vf_u8();
        VF_ASSUME(c != 0);
        x->s[i] = x->o[i] = c;
    }
    x->s[len] = x->o[len] = 0;
}
static inline unsigned anylen(void)
{
    unsigned n = vf_below(N + 1);
    for (unsigned i = 0; i < N; ++i) if (n == i) return i;
    return N;
}
#endif
