/* The boxed types: reference encoding, and calls of the library's codecs. */
#pragma once
#include "xport.h"
enum { B_I64, B_U64, B_I32, B_U32, B_I16, B_U16, B_I8, B_U8, B_BOOL, B_STR, B_DATA, B_KINDS };
static const unsigned char b_tag[B_KINDS] = { 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x20, 0x22 };
static const unsigned char b_width[B_KINDS] = { 8, 8, 4, 4, 2, 2, 1, 1, 1, 4, 4 };
#ifndef PAY
#define PAY 3
#endif
typedef struct bval { uint64_t n; uint8_t p[PAY + 1]; size_t len; } bval;
static unsigned b_pick(void)
{
    unsigned k = vf_below(B_KINDS);
    for (unsigned i = 0; i < B_KINDS; ++i) if (k == i) return i;
    return 0;
}
/* one concrete path per value below n. */
static size_t b_len(unsigned n)
{
    size_t k = vf_below(n);
    for (size_t i = 0; i + 1 < n; ++i) if (k == i) return i;
    return n - 1;
}
static uint64_t b_mask(unsigned k) { return b_width[k] == 8 ? ~(uint64_t)0 : ((uint64_t)1 << (8 * b_width[k])) - 1; }
static void b_make(unsigned k, bval* v)
{
    if (k == B_STR || k == B_DATA)
    {
        v->len = b_len(PAY + 1);
        for (size_t i = 0; i < v->len; ++i) { v->p[i] = vf_u8(); if (k == B_STR) VF_ASSUME(v->p[i] != 0); }
        v->p[v->len] = 0;
        v->n = v->len;
    }
    else { v->n = vf_u64() & b_mask(k); if (k == B_BOOL) VF_ASSUME(v->n < 2); v->len = 0; }
}
/* the value's bytes without the tag (raw) or with it. */
static size_t b_encode(unsigned k, const bval* v, bool boxed, uint8_t* o)
{
    size_t n = 0;
    if (boxed) { o[n++] = 0; o[n++] = 0; o[n++] = 0; o[n++] = b_tag[k]; }
    for (unsigned i = b_width[k]; i-- > 0; ) o[n++] = (uint8_t)(v->n >> (8 * i));
    for (size_t i = 0; i < v->len; ++i) o[n++] = v->p[i];
    return n;
}
static status b_write(RCPR_SYM(psock)* s, unsigned k, const bval* v)
{
    switch (k)
    {
        case B_I64: return RCPR_SYM(psock_write_boxed_int64)(s, (int64_t)v->n);
        case B_U64: return RCPR_SYM(psock_write_boxed_uint64)(s, v->n);
        case B_I32: return RCPR_SYM(psock_write_boxed_int32)(s, (int32_t)v->n);
        case B_U32: return RCPR_SYM(psock_write_boxed_uint32)(s, (uint32_t)v->n);
        case B_I16: return RCPR_SYM(psock_write_boxed_int16)(s, (int16_t)v->n);
        case B_U16: return RCPR_SYM(psock_write_boxed_uint16)(s, (uint16_t)v->n);
        case B_I8: return RCPR_SYM(psock_write_boxed_int8)(s, (int8_t)v->n);
        case B_U8: return RCPR_SYM(psock_write_boxed_uint8)(s, (uint8_t)v->n);
        case B_BOOL: return RCPR_SYM(psock_write_boxed_bool)(s, v->n != 0);
        case B_STR: return RCPR_SYM(psock_write_boxed_string)(s, (const char*)v->p);
        default: return RCPR_SYM(psock_write_boxed_data)(s, v->p, v->len);
    }
}
/* reads into r; *blk is the block given out (string, data). r->n untouched unless published. */
#define B_GET(T, F) { T t; T m; memset(&m, 0x5b, sizeof m); t = m; st = RCPR_SYM(F)(s, &t); *pub = memcmp(&t, &m, sizeof t) != 0; r->n = (uint64_t)t & b_mask(k); break; }
static status b_read(RCPR_SYM(psock)* s, unsigned k, bval* r, void** blk, bool* pub)
{
    status st;
    *blk = NULL;
    r->len = 0;
    switch (k)
    {
        case B_I64: B_GET(int64_t, psock_read_boxed_int64)
        case B_U64: B_GET(uint64_t, psock_read_boxed_uint64)
        case B_I32: B_GET(int32_t, psock_read_boxed_int32)
        case B_U32: B_GET(uint32_t, psock_read_boxed_uint32)
        case B_I16: B_GET(int16_t, psock_read_boxed_int16)
        case B_U16: B_GET(uint16_t, psock_read_boxed_uint16)
        case B_I8: B_GET(int8_t, psock_read_boxed_int8)
        case B_U8: B_GET(uint8_t, psock_read_boxed_uint8)
        case B_BOOL:
        {
            bool t = false, u = true;
            st = RCPR_SYM(psock_read_boxed_bool)(s, &t);
            *pub = t;
            r->n = t;
            (void)u;
            break;
        }
        case B_STR:
        {
            char* p = NULL; size_t n = 77;
            st = RCPR_SYM(psock_read_boxed_string)(s, vf_allocator_get(), &p, &n);
            *pub = p != NULL || n != 77; *blk = p; r->n = n; r->len = n;
            break;
        }
        default:
        {
            void* p = NULL; size_t n = 77;
            st = RCPR_SYM(psock_read_boxed_data)(s, vf_allocator_get(), &p, &n);
            *pub = p != NULL || n != 77; *blk = p; r->n = n; r->len = n;
            break;
        }
    }
    return st;
}
