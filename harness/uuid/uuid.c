/* U01.  MODE 0: parse of arbitrary text with an arbitrary character at every
 * position; MODE 1: format, then parse back; MODE 2: lengths. */
#include "../vf_alloc.h"
#include <string.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_uuid;

static int hex(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static bool dash(unsigned i) { return i == 8 || i == 13 || i == 18 || i == 23; }

#if MODE == 1
void vf_main(void)
{
    rcpr_uuid u, v;
    for (int i = 0; i < 16; ++i) u.data[i] = vf_u8();
    char* s = (char*)0x10;
    vf_may_fail = true;
    status r = rcpr_uuid_to_string(&s, vf_allocator_get(), &u);
    if (vf_failures)
    {
        VF_ASSERT(r == ERROR_GENERAL_OUT_OF_MEMORY && vf_live == 0, "formatting reports an allocation failure and leaks nothing");
        VF_REACH("format failed");
        return;
    }
    VF_ASSERT(r == STATUS_SUCCESS, "formatting succeeds");
    unsigned k = 0;
    for (unsigned i = 0; i < 36; ++i)
    {
        if (dash(i)) { VF_ASSERT(s[i] == '-', "dashes at the four standard places"); continue; }
        unsigned n = (k & 1) ? u.data[k / 2] & 15u : u.data[k / 2] >> 4;
        VF_ASSERT(s[i] == (char)(n < 10 ? '0' + n : 'a' + n - 10), "canonical lower-case digits");
        ++k;
    }
    VF_ASSERT(s[36] == 0, "the text is terminated");
    bool raw = vf_bool();
    /* the choices left are case splits on digit/letter; parse the text as a
     * string of known class by pinning only the classes. */
    r = raw ? rcpr_uuid_parse_raw_string(&v, s, 36) : rcpr_uuid_parse_string(&v, s);
    VF_ASSERT(r == STATUS_SUCCESS, "the canonical text parses");
    for (int i = 0; i < 16; ++i) VF_ASSERT(v.data[i] == u.data[i], "parsing the text gives the UUID back");
    VF_ASSERT(allocator_reclaim(vf_allocator_get(), s) == STATUS_SUCCESS, "the text belongs to the allocator given");
    VF_REACH("round trip");
}
#else
/* every position holds an arbitrary byte at once; the parser decides them one
 * after the other, so its paths are the prefixes it accepts. */
void vf_main(void)
{
    bool raw = vf_bool();
    size_t len = raw ? vf_size() : LEN;
    if (raw && LEN != 36) VF_ASSUME(len != 36);
    if (LEN == 36) len = 36;
    char* t = malloc(LEN + 1);
    VF_ASSUME(t != NULL);
    bool ok = LEN == 36;
    uint8_t want[16] = {0};
    unsigned k = 0;
    for (unsigned i = 0; i < LEN; ++i)
    {
        char c = (char)vf_u8();
        if (!raw) VF_ASSUME(c != 0);
        t[i] = c;
        if (dash(i)) { ok = ok & (c == '-'); continue; }
        int h = 0;
        bool dg = (c >= '0') & (c <= '9'), lo = (c >= 'a') & (c <= 'f'), up = (c >= 'A') & (c <= 'F');
        h = (dg ? c - '0' : 0) | (lo ? c - 'a' + 10 : 0) | (up ? c - 'A' + 10 : 0);
        ok = ok & (dg | lo | up);
        if (k < 32) want[k / 2] = (uint8_t)((k & 1) ? (want[k / 2] | h) : (h << 4));
        ++k;
    }
    t[LEN] = raw ? (char)vf_u8() : 0;
    rcpr_uuid u, before;
    for (int i = 0; i < 16; ++i) before.data[i] = u.data[i] = vf_u8();
    status r = raw ? rcpr_uuid_parse_raw_string(&u, t, len) : rcpr_uuid_parse_string(&u, t);
    VF_ASSERT(ok == (r == STATUS_SUCCESS), "text parses exactly when it is a well-formed UUID");
    if (r == STATUS_SUCCESS)
    {
        for (int i = 0; i < 16; ++i) VF_ASSERT(u.data[i] == want[i], "the result is the bytes the digits spell");
        if (raw) VF_REACH("parsed raw"); else VF_REACH("parsed");
    }
    else
    {
        VF_ASSERT(r == ERROR_UUID_PARSING_FAILED, "ill-formed text is rejected as invalid");
        for (int i = 0; i < 16; ++i) VF_ASSERT(u.data[i] == before.data[i], "a rejected string leaves the destination unchanged");
        if (raw) VF_REACH("rejected raw"); else VF_REACH("rejected");
    }
    free(t);
}
#endif
