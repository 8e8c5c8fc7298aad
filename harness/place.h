#pragma once
#include "vf.h"
/* the place of an operation: any below n, or in a long sequence (-DLONG) one
 * of seven. */
static unsigned place(unsigned n, unsigned cap)
{
#ifdef LONG
    (void)cap;
    VF_ASSUME(n > 0);
    unsigned k = vf_below(7);
    switch (k)
    {
        case 0: return 0;
        case 1: return n > 1 ? 1 : 0;
        case 2: return n / 3;
        case 3: return n > 256 ? 255 : n / 2;
        case 4: return n > 257 ? 256 : n / 2;
        case 5: return n > 1 ? n - 2 : 0;
        default: return n - 1;
    }
#else
    unsigned k = vf_below(cap);
    VF_ASSUME(k < n);
    return k;
#endif
}
