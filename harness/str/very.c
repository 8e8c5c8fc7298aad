/* S01..S04 with runs and bodies longer than sixteen bits count.
 * KIND 0 trim, 1 split, suffix and chomp, 2 tokens, 3 duplicate and join. */
#include "../vf_alloc.h"
#include "../psock/step.h"
#include <string.h>
#include <rcpr/string.h>
RCPR_IMPORT_string_as(rs);
#define L 66000
static char t[3 * L + 4];
static const unsigned lens[] = { 0, 2, 256, L };
static void body(char* p, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) p[i] = (char)('a' + i % 26);
    if (n) { p[0] = (char)vf_u8(); VF_ASSUME((p[0] >= 'A' && p[0] <= 'Z') || (uint8_t)p[0] >= 128); }
}
static void kept(const char* p, unsigned n)
{
    for (unsigned i = 1; i < n; ++i) VF_ASSERT(p[i] == (char)('a' + i % 26), "the bytes are the string's");
}
static int comma(int c) { return c == ','; }
static bool is_comma(int c) { return comma(c); }
void vf_main(void)
{
    unsigned a = lens[step_len(4)], b = lens[step_len(4)];
    vf_may_fail = false;
#if KIND == 0
    unsigned c = lens[step_len(4)], how = (unsigned)step_len(3);
    for (unsigned i = 0; i < a; ++i) t[i] = i % 5 ? ' ' : '\n';
    body(t + a, b);
    for (unsigned i = 0; i < c; ++i) t[a + b + i] = i % 5 ? '\t' : '\v';
    t[a + b + c] = 0;
    if (how == 0) rs_left_trim(t); else if (how == 1) rs_right_trim(t); else rs_trim(t);
    unsigned from = how == 1 && b ? a : 0;
    unsigned n = b + (how == 1 && b ? a : 0) + (how == 0 && b ? c : 0);
    VF_ASSERT(strlen(t) == n, "what is around the text is gone, and no more");
    kept(t + from, b);
    if (b) for (unsigned i = 0; i < from; ++i) VF_ASSERT(t[i] == (i % 5 ? ' ' : '\n'), "the bytes are the string's");
    if (a > 65536 && b > 65536 && c > 65536) VF_REACH("very long");
#elif KIND == 1
    body(t, a); t[a] = ','; body(t + a + 1, b); t[a + 1 + b] = 0;
    VF_ASSERT(rs_ends_with(t, b ? b == 1 ? t[a + 1] : 'a' + (int)(b - 1) % 26 : ','), "the last character is found");
    VF_ASSERT(!rs_ends_with(t, '!'), "and no other");
    const char *x, *y;
    bool cut = vf_bool();
    if (cut && b > 0) { VF_ASSUME(1); rs_chomp(t); t[a + 1 + b] = 0; --b; VF_ASSERT(strlen(t) == a + 1 + b, "the last character is cut off"); }
    VF_ASSERT(rs_split(&x, &y, t, ',') == STATUS_SUCCESS, "the delimiter is found");
    VF_ASSERT(x == t && y == t + a + 1 && strlen(x) == a && strlen(y) == b, "the parts are those around it");
    kept(x, a); kept(y, b);
    VF_ASSERT(rs_split(&x, &y, t + a + 1, ',') == ERROR_STRING_END_OF_INPUT && !x && !y, "there is no other");
    if (a > 65536 && b > 65536) VF_REACH("very long");
#elif KIND == 2
    unsigned c = lens[step_len(4)];
    bool sep = vf_bool();
    if (sep) VF_ASSUME(1);
    body(t, a);
    for (unsigned i = 0; i < c + 1; ++i) t[a + i] = sep ? ',' : ' ';
    body(t + a + c + 1, b); t[a + c + 1 + b] = 0;
    rs_string_iterator it; const char* w = NULL; status s;
    const unsigned n[2] = { a, b }; const char* at[2] = { t, t + a + c + 1 };
    char* str = t;
    for (int k = 0; k < 2; ++k) if (n[k])
    {
        s = sep ? rs_multisplit(&w, &it, str, &is_comma) : rs_words(&w, &it, str);
        str = NULL;
        VF_ASSERT(s == STATUS_SUCCESS && w == at[k] && strlen(w) == n[k], "each token is found");
        kept(w, n[k]);
    }
    s = sep ? rs_multisplit(&w, &it, str, &is_comma) : rs_words(&w, &it, str);
    VF_ASSERT(s == ERROR_STRING_END_OF_INPUT && w == NULL, "and no other");
    if (a > 65536 && b > 65536 && c > 65536) VF_REACH("very long");
#else
    char* out = NULL; char* two = t + L + 2;
    body(t, a); t[a] = 0; body(two, b); two[b] = 0;
    VF_ASSERT((b ? rs_strcatv(&out, vf_allocator_get(), t, two, NULL) : rs_strdup(&out, vf_allocator_get(), t)) == STATUS_SUCCESS, "the copy is made");
    VF_ASSERT(strlen(out) == a + b, "it is as long as the strings");
    kept(out, a); kept(out + a, b);
    if (a) VF_ASSERT(out[0] == t[0], "the bytes are the string's");
    if (b) VF_ASSERT(out[a] == two[0], "the bytes are the string's");
    VF_ASSERT(allocator_reclaim(vf_allocator_get(), out) == STATUS_SUCCESS && vf_live == 0, "the block is the caller's");
    if (a > 65536 && b > 65536) VF_REACH("very long");
#endif
    VF_REACH("end");
}
