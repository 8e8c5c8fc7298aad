/* S01: trimming and the whitespace test, for every string of length <= N. */
#include "str.h"

static void is(const sstr* x, unsigned from, unsigned to)
{
    unsigned n = 0;
    for (; n <= x->len && x->s[n]; ++n) {}
    VF_ASSERT(n <= x->len, "the trimmed string is terminated inside the string");
    VF_ASSERT(n == to - from, "exactly the surrounding whitespace is removed");
    for (unsigned i = 0; i < n; ++i)
        VF_ASSERT(x->s[i] == x->o[from + i], "every other character is kept, in order");
}

void vf_main(void)
{
    unsigned op = vf_below(4);
    if (op == 3)
    {
        int ch = vf_i32();
        VF_ASSUME(ch >= -128 && ch <= 255); /* what <ctype.h> is defined for */
        bool w = rs_is_whitespace(ch);
        VF_ASSERT(w == (ch == ' ' || (ch >= 9 && ch <= 13)), "whitespace is what the C locale says");
        VF_REACH("whitespace test");
        return;
    }
    sstr x;
    mk(&x, anylen());
    unsigned from = 0, to = x.len;
    if (op != 1) while (from < to && ws(x.o[from])) ++from;
    if (op != 0) while (to > from && ws(x.o[to - 1])) --to;
    if (op == 0) rs_left_trim(x.s);
    else if (op == 1) rs_right_trim(x.s);
    else rs_trim(x.s);
    is(&x, from, to);
    if (from == to && x.len) VF_REACH("all whitespace");
    if (op == 0 && from && from != to) VF_REACH("left");
    if (op == 1 && to != x.len && from != to) VF_REACH("right");
    if (op == 2 && from && to != x.len && from != to) VF_REACH("both");
    free(x.s);
}
