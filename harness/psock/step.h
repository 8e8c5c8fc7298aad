/* one concrete path per value below n. */
#pragma once
#include "../vf.h"
static size_t step_len(unsigned n)
{
    size_t k = vf_below(n);
    for (size_t i = 0; i + 1 < n; ++i) if (k == i) return i;
    return n - 1;
}
