/* S03: words and multisplit yield exactly the maximal runs, for every string
 * of length <= N and (multisplit) every predicate over its characters. */
#include "str.h"

static sstr x;
static bool pred[N + 1];
static bool token(int ch)
{
    bool r = false;
#ifdef LONG
    return ws((char)ch) || ch == 'e';
#endif
    VF_ASSERT(ch != 0, "the predicate is asked about characters of the string only");
    for (unsigned i = x.len; i-- > 0;)
        if ((int)x.o[i] == ch) r = pred[i];
    return r;
}

void vf_main(void)
{
    bool multi = vf_bool();
    mk(&x, anylen());
    bool sep[N + 1];
    for (unsigned i = 0; i < x.len; ++i)
    {
#ifdef LONG
        sep[i] = ws(x.o[i]) || (multi && x.o[i] == 'e');
        continue;
#endif
        if (multi)
        {
            pred[i] = vf_bool();
            sep[i] = pred[i];
            for (unsigned j = i; j-- > 0;) if (x.o[j] == x.o[i]) sep[i] = sep[j];
        }
        else sep[i] = ws(x.o[i]);
    }
    rs_string_iterator it;
    memset(&it, 0x55, sizeof(it));
    unsigned pos = 0, got = 0;
    bool first = true;
    for (unsigned k = 0; k <= N + 1; ++k)
    {
        const char* w = "?";
        status s;
        if (multi) s = rs_multisplit(&w, &it, first ? x.s : NULL, first ? &token : NULL);
        else s = rs_words(&w, &it, first ? x.s : NULL);
        first = false;
        while (pos < x.len && sep[pos]) ++pos;
        if (pos == x.len)
        {
            VF_ASSERT(s == ERROR_STRING_END_OF_INPUT && w == NULL, "the end is reported, and again when asked again");
            VF_REACH("end of input");
        }
        else
        {
            unsigned st = pos;
            VF_ASSERT(s == STATUS_SUCCESS, "a further token is yielded");
            VF_ASSERT(w == x.s + st, "the token starts at the next run");
            while (pos < x.len && !sep[pos]) ++pos;
            for (unsigned i = st; i < pos; ++i) VF_ASSERT(x.s[i] == x.o[i], "the token's characters are unchanged");
            VF_ASSERT(x.s[pos] == 0, "the token ends with its run");
            if (++got >= 2) VF_REACH("two tokens");
            if (multi) VF_REACH("multisplit"); else VF_REACH("words");
        }
    }
    free(x.s);
}
