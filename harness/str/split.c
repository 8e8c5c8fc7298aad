/* S02: split, starts_with, ends_with, chomp over every string of length <= N. */
#include "str.h"

static void same(const sstr* x, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) VF_ASSERT(x->s[i] == x->o[i], "the characters kept are unchanged");
}

void vf_main(void)
{
    unsigned op = vf_below(4);
    sstr x;
    mk(&x, anylen());
    if (op == 0)
    {
        int delim = (char)vf_u8();
        const char* l = "?"; const char* r = "?";
        unsigned at = 0;
        while (at < x.len && x.o[at] != delim) ++at;
        status s = rs_split(&l, &r, x.s, delim);
        same(&x, at);
        if (at < x.len)
        {
            VF_ASSERT(s == STATUS_SUCCESS, "a present delimiter is found");
            VF_ASSERT(l == x.s && x.s[at] == 0, "the left part is the text before the first delimiter");
            VF_ASSERT(r == x.s + at + 1, "the right part is the text after the first delimiter");
            for (unsigned i = at + 1; i <= x.len; ++i) VF_ASSERT(x.s[i] == x.o[i], "the right part is unchanged");
            VF_REACH("split");
        }
        else
        {
            VF_ASSERT(s == ERROR_STRING_END_OF_INPUT, "an absent delimiter is reported");
            VF_ASSERT(l == NULL && r == NULL, "no parts are given out for an absent delimiter");
            VF_ASSERT(x.s[x.len] == 0, "the string is left as it was");
            VF_REACH("absent");
        }
    }
    else if (op == 1)
    {
        sstr y;
        mk(&y, anylen());
        bool p = y.len <= x.len;
        for (unsigned i = 0; i < y.len && i < x.len; ++i) p = p & (x.o[i] == y.o[i]);
        bool g = rs_starts_with(x.s, y.s);
        VF_ASSERT(g == p, "starts_with is true exactly for a prefix");
        same(&x, x.len + 1); same(&y, y.len + 1);
        if (g) VF_REACH("prefix"); else VF_REACH("no prefix");
        free(y.s);
    }
    else if (op == 2)
    {
        int ch = (char)vf_u8();
        bool g = rs_ends_with(x.s, ch);
        bool p = x.len > 0 && x.o[x.len ? x.len - 1 : 0] == ch;
        VF_ASSERT(g == p, "ends_with is true exactly for the last character");
        same(&x, x.len + 1);
        if (g) VF_REACH("suffix");
    }
    else
    {
        rs_chomp(x.s);
        unsigned n = x.len ? x.len - 1 : 0;
        same(&x, n);
        VF_ASSERT(x.s[n] == 0, "chomp removes exactly the last character");
        VF_REACH("chomp");
    }
    free(x.s);
}
