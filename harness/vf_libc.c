/* C library functions for the symbolic engine (never linked natively). */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/socket.h>

static int vf_errno_cell;
int* __errno_location(void) { return &vf_errno_cell; }

/* leading bytes the engine knows to be equal / to differ from a byte: skipped. */
size_t vf_sym_common(const void* a, const void* b, size_t n);
size_t vf_sym_other(const void* a, int c, size_t n);
/* leading bytes with known values. */
size_t vf_sym_known(const void* a, size_t n);
/* the first of n known bytes equal to c, without branches. */
static void* vf_pick(const uint8_t* a, uint8_t c, size_t n)
{
    uintptr_t r = 0;
    for (size_t i = n; i-- > 0; ) { uintptr_t m = (uintptr_t)0 - (uintptr_t)(a[i] == c); r = (r & ~m) | ((uintptr_t)(a + i) & m); }
    return (void*)r;
}
static size_t vf_text(const char* s)
{
    size_t k = vf_sym_known(s, 64);
    for (size_t i = 0; i < k; ++i) if (!s[i]) return i + 1;
    return 0;
}
size_t strnlen(const char* s, size_t m)
{
    for (size_t n = 0; ; ++n)
    {
        n += vf_sym_other(s + n, 0, m - n);
        if (n >= m || !s[n]) return n;
    }
}
size_t strlen(const char* s)
{
    for (size_t n = 0; ; ++n)
    {
        n += vf_sym_other(s + n, 0, SIZE_MAX);
        if (!s[n]) return n;
    }
}
int memcmp(const void* a, const void* b, size_t n)
{
    const uint8_t* x = a; const uint8_t* y = b;
    for (size_t i = 0; ; ++i)
    {
        i += vf_sym_common(x + i, y + i, n - i);
        if (i >= n) return 0;
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    }
}
void* memchr(const void* a, int c, size_t n)
{
    const uint8_t* x = a;
    if (n <= 64 && vf_sym_known(a, n) == n) return vf_pick(x, (uint8_t)c, n);
    for (size_t i = 0; ; ++i)
    {
        i += vf_sym_other(x + i, (uint8_t)c, n - i);
        if (i >= n) return NULL;
        if (x[i] == (uint8_t)c) return (void*)(x + i);
    }
}
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) { ++a; ++b; }
    return (uint8_t)*a - (uint8_t)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        if (a[i] != b[i]) return (uint8_t)a[i] - (uint8_t)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
char* strchr(const char* s, int c)
{
    size_t k = vf_text(s);
    if (k) return vf_pick((const uint8_t*)s, (uint8_t)c, k);
    for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; }
}
char* strrchr(const char* s, int c)
{
    const char* r = NULL;
    for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n)
{
    char* e = d + strlen(d);
    size_t i = 0;
    for (; i < n && s[i]; ++i) e[i] = s[i];
    e[i] = 0;
    return d;
}
char* stpncpy(char* d, const char* s, size_t n) { strncpy(d, s, n); return d + strnlen(s, n); }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (uint8_t*)d + n; }
void* memccpy(void* d, const void* s, int c, size_t n)
{
    uint8_t* x = d; const uint8_t* y = s;
    for (size_t i = 0; i < n; ++i) { x[i] = y[i]; if (y[i] == (uint8_t)c) return x + i + 1; }
    return NULL;
}
void* memrchr(const void* a, int c, size_t n)
{
    const uint8_t* x = a;
    while (n-- > 0) if (x[n] == (uint8_t)c) return (void*)(x + n);
    return NULL;
}
void* rawmemchr(const void* a, int c) { const uint8_t* x = a; while (*x != (uint8_t)c) ++x; return (void*)x; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) ++s; return (char*)s; }
void bzero(void* d, size_t n) { memset(d, 0, n); }
void explicit_bzero(void* d, size_t n) { memset(d, 0, n); }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
/* membership without branches: one path for the members, one for the rest. */
static int vf_among(int c, const char* a) { unsigned r = 0; for (; *a; ++a) r |= (unsigned)(c == *a); return (int)r; }
char* strpbrk(const char* s, const char* a) { for (; *s; ++s) if (vf_among(*s, a)) return (char*)s; return NULL; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && vf_among(s[n], a)) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !vf_among(s[n], a)) ++n; return n; }
char* strstr(const char* h, const char* n)
{
    size_t k = strlen(n);
    for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return NULL; }
}
/* ctype.h, C locale; without branches, so that a symbolic character stays one path. */
#define VF_IN(c, l, h) ((unsigned)(c) - (l) <= (unsigned)(h) - (l))
#define VF_UPPER(c) VF_IN(c, 'A', 'Z')
#define VF_LOWER(c) VF_IN(c, 'a', 'z')
#define VF_DIGIT(c) VF_IN(c, '0', '9')
#define VF_XDIGIT(c) (VF_DIGIT(c) | VF_IN(c, 'a', 'f') | VF_IN(c, 'A', 'F'))
#define VF_ALPHA(c) (VF_UPPER(c) | VF_LOWER(c))
#define VF_ALNUM(c) (VF_ALPHA(c) | VF_DIGIT(c))
#define VF_SPACE(c) (((c) == ' ') | VF_IN(c, 9, 13))
#define VF_BLANK(c) (((c) == ' ') | ((c) == 9))
#define VF_PRINT(c) VF_IN(c, 32, 126)
#define VF_GRAPH(c) VF_IN(c, 33, 126)
#define VF_PUNCT(c) (VF_GRAPH(c) & !VF_ALNUM(c))
#define VF_CNTRL(c) (VF_IN(c, 0, 31) | ((c) == 127))
#define VF_TOLOWER(c) ((c) + 32 * VF_UPPER(c))
#define VF_TOUPPER(c) ((c) - 32 * VF_LOWER(c))
int isspace(int c) { return VF_SPACE(c); }
int isdigit(int c) { return VF_DIGIT(c); }
int isxdigit(int c) { return VF_XDIGIT(c); }
int isalpha(int c) { return VF_ALPHA(c); }
int isalnum(int c) { return VF_ALNUM(c); }
int isupper(int c) { return VF_UPPER(c); }
int islower(int c) { return VF_LOWER(c); }
int isblank(int c) { return VF_BLANK(c); }
int isprint(int c) { return VF_PRINT(c); }
int isgraph(int c) { return VF_GRAPH(c); }
int ispunct(int c) { return VF_PUNCT(c); }
int iscntrl(int c) { return VF_CNTRL(c); }
int tolower(int c) { return VF_TOLOWER(c); }
int toupper(int c) { return VF_TOUPPER(c); }

/* the tables behind the ctype.h macros. */
#define VF_CT(c) (VF_UPPER(c) << 8 | VF_LOWER(c) << 9 | VF_ALPHA(c) << 10 | VF_DIGIT(c) << 11 | VF_XDIGIT(c) << 12 | VF_SPACE(c) << 13 \
    | VF_PRINT(c) << 14 | VF_GRAPH(c) << 15 | VF_BLANK(c) | VF_CNTRL(c) << 1 | VF_PUNCT(c) << 2 | VF_ALNUM(c) << 3)
#define R4(f, c) f((c)), f((c) + 1), f((c) + 2), f((c) + 3)
#define R16(f, c) R4(f, c), R4(f, (c) + 4), R4(f, (c) + 8), R4(f, (c) + 12)
#define R64(f, c) R16(f, c), R16(f, (c) + 16), R16(f, (c) + 32), R16(f, (c) + 48)
#define RALL(f) { R64(f, -128), R64(f, -64), R64(f, 0), R64(f, 64), R64(f, 128), R64(f, 192) }
static const unsigned short vf_ctype_b[384] = RALL(VF_CT);
static const int32_t vf_lower[384] = RALL(VF_TOLOWER), vf_upper[384] = RALL(VF_TOUPPER);
static const unsigned short* vf_ctype_p;
static const int32_t *vf_lower_p, *vf_upper_p;
const unsigned short** __ctype_b_loc(void) { vf_ctype_p = vf_ctype_b + 128; return &vf_ctype_p; }
const int32_t** __ctype_tolower_loc(void) { vf_lower_p = vf_lower + 128; return &vf_lower_p; }
const int32_t** __ctype_toupper_loc(void) { vf_upper_p = vf_upper + 128; return &vf_upper_p; }

uint16_t htons(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
uint16_t ntohs(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
uint32_t htonl(uint32_t v) { return __builtin_bswap32(v); }
uint32_t ntohl(uint32_t v) { return __builtin_bswap32(v); }

/* as glibc 2.39 has it. */
struct cmsghdr* __cmsg_nxthdr(struct msghdr* m, struct cmsghdr* c)
{
    size_t pad = (sizeof(size_t) - (c->cmsg_len & (sizeof(size_t) - 1))) & (sizeof(size_t) - 1);
    size_t left = (size_t)((uint8_t*)m->msg_control + m->msg_controllen - (uint8_t*)c), need = sizeof(struct cmsghdr) + pad;
    if (c->cmsg_len < sizeof(struct cmsghdr) || left < need || left - need < c->cmsg_len) return NULL;
    return (struct cmsghdr*)((uint8_t*)c + CMSG_ALIGN(c->cmsg_len));
}

/* formatted output and number parsing, as far as a library like this one uses them. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
typedef struct { char* b; size_t cap, len; } vf_out;
static void vf_put(vf_out* o, char c) { if (o->len + 1 < o->cap) o->b[o->len] = c; ++o->len; }
static void vf_num(vf_out* o, unsigned long long v, unsigned base, int upper, int neg, int width, int zero, int left, int prec)
{
    const char* dig = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    char t[24]; int n = 0, min = prec >= 0 ? prec : (zero && !left ? width - (neg ? 1 : 0) : 1);
    while (v || n < min)
    {
        if (n >= 24) break;
        t[n++] = dig[base == 16 ? v & 15 : v % base]; v = base == 16 ? v >> 4 : v / base;
    }
    int pad = width - n - (neg ? 1 : 0);
    if (!left) for (; pad > 0; --pad) vf_put(o, ' ');
    if (neg) vf_put(o, '-');
    while (n) vf_put(o, t[--n]);
    for (; pad > 0; --pad) vf_put(o, ' ');
}
int vsnprintf(char* b, size_t cap, const char* f, va_list ap)
{
    vf_out o = { b, cap, 0 };
    for (; *f; ++f)
    {
        if (*f != '%') { vf_put(&o, *f); continue; }
        int zero = 0, left = 0, width = 0, prec = -1, l = 0;
        for (++f; *f == '0' || *f == '-'; ++f) { if (*f == '0') zero = 1; else left = 1; }
        if (*f == '*') { width = va_arg(ap, int); ++f; }
        else for (; *f >= '0' && *f <= '9'; ++f) width = width * 10 + (*f - '0');
        if (*f == '.')
        {
            prec = 0; ++f;
            if (*f == '*') { prec = va_arg(ap, int); ++f; }
            else for (; *f >= '0' && *f <= '9'; ++f) prec = prec * 10 + (*f - '0');
        }
        if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { l = 1; ++f; if (*f == 'l') ++f; }
        else if (*f == 'h') { l = -1; ++f; if (*f == 'h') { l = -2; ++f; } }
        if (*f == 'c') vf_put(&o, (char)va_arg(ap, int));
        else if (*f == '%') vf_put(&o, '%');
        else if (*f == 's')
        {
            const char* s = va_arg(ap, const char*); size_t n = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s);
            if (!left) for (size_t k = n; k < (size_t)width; ++k) vf_put(&o, ' ');
            for (size_t k = 0; k < n; ++k) vf_put(&o, s[k]);
            if (left) for (size_t k = n; k < (size_t)width; ++k) vf_put(&o, ' ');
        }
        else if (*f == 'd' || *f == 'i')
        {
            long long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int);
            if (l == -1) v = (short)v; else if (l == -2) v = (signed char)v;
            vf_num(&o, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, 10, 0, v < 0, width, zero && prec < 0, left, prec);
        }
        else
        {
            unsigned long long v = l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            if (l == -1) v = (unsigned short)v; else if (l == -2) v = (unsigned char)v;
            vf_num(&o, v, *f == 'u' ? 10 : 16, *f == 'X', 0, width, zero && prec < 0, left, prec);
        }
    }
    if (cap) b[o.len < cap ? o.len : cap - 1] = 0;
    return (int)o.len;
}
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, SIZE_MAX / 2, f, ap); }
int snprintf(char* b, size_t cap, const char* f, ...)
{
    va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r;
}
int sprintf(char* b, const char* f, ...)
{
    va_list ap; va_start(ap, f); int r = vsnprintf(b, SIZE_MAX / 2, f, ap); va_end(ap); return r;
}
int __snprintf_chk(char* b, size_t cap, int fl, size_t sz, const char* f, ...)
{
    (void)fl; (void)sz; va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r;
}
int __sprintf_chk(char* b, int fl, size_t sz, const char* f, ...)
{
    (void)fl; va_list ap; va_start(ap, f); int r = vsnprintf(b, sz, f, ap); va_end(ap); return r;
}
unsigned long strtoul(const char* s, char** e, int base)
{
    const char* p = s; int neg = 0, any = 0, over = 0; unsigned long v = 0;
    while (VF_SPACE((unsigned char)*p)) ++p;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && VF_XDIGIT((unsigned char)p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; ++p)
    {
        unsigned c = (unsigned char)*p, d;
        if (VF_DIGIT(c)) d = c - '0'; else if (VF_ALPHA(c)) d = (unsigned)VF_TOLOWER((int)c) - 'a' + 10; else break;
        if (d >= (unsigned)base) break;
        any = 1; if (v > (~0ul - d) / (unsigned)base) over = 1;
        v = v * (unsigned)base + d;
    }
    if (e) *e = (char*)(any ? p : s);
    if (over) { vf_errno_cell = 34; return ~0ul; }
    return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int base) { return (long)strtoul(s, e, base); }
unsigned long long strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
long long strtoll(const char* s, char** e, int base) { return (long long)strtoul(s, e, base); }
int atoi(const char* s) { return (int)strtol(s, NULL, 10); }

/* more of string.h and strings.h. */
int strcasecmp(const char* a, const char* b)
{
    for (;; ++a, ++b) { int x = VF_TOLOWER((int)(unsigned char)*a), y = VF_TOLOWER((int)(unsigned char)*b); if (x != y || !x) return x - y; }
}
int strncasecmp(const char* a, const char* b, size_t n)
{
    for (; n; ++a, ++b, --n) { int x = VF_TOLOWER((int)(unsigned char)*a), y = VF_TOLOWER((int)(unsigned char)*b); if (x != y || !x) return x - y; }
    return 0;
}
char* strsep(char** s, const char* d)
{
    char* b = *s; if (!b) return NULL;
    char* e = b + strcspn(b, d);
    if (*e) { *e = 0; *s = e + 1; } else *s = NULL;
    return b;
}
char* strtok_r(char* s, const char* d, char** save)
{
    if (!s) s = *save;
    if (!s) return NULL;
    s += strspn(s, d);
    if (!*s) { *save = s; return NULL; }
    char* e = s + strcspn(s, d);
    if (*e) { *e = 0; *save = e + 1; } else *save = e;
    return s;
}
static char* vf_tok;
char* strtok(char* s, const char* d) { return strtok_r(s, d, &vf_tok); }
void swab(const void* a, void* b, ssize_t n)
{
    for (ssize_t i = 0; i + 1 < n; i += 2) { char x = ((const char*)a)[i], y = ((const char*)a)[i + 1]; ((char*)b)[i] = y; ((char*)b)[i + 1] = x; }
}
div_t div(int a, int b) { div_t r = { a / b, a % b }; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r = { a / b, a % b }; return r; }
void qsort(void* v, size_t n, size_t w, int (*f)(const void*, const void*))
{
    char* p = v;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j > 0 && f(p + (j - 1) * w, p + j * w) > 0; --j)
            for (size_t k = 0; k < w; ++k) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; }
}
void* bsearch(const void* key, const void* v, size_t n, size_t w, int (*f)(const void*, const void*))
{
    size_t l = 0, u = n;
    while (l < u)
    {
        size_t m = (l + u) / 2; const char* p = (const char*)v + m * w; int c = f(key, p);
        if (!c) return (void*)p;
        if (c < 0) u = m; else l = m + 1;
    }
    return NULL;
}
