/* Verification runtime: the same harness is compiled twice,
 *   - to LLVM IR (-DVF_SYMX) for symx: vf_*() are symbolic values, VF_ASSERT
 *     is a proof obligation;
 *   - with gcc + ASan/UBSan: vf_*() replays the solver's assignment, in order.
 */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

uint8_t  vf_u8(void);
uint16_t vf_u16(void);
uint32_t vf_u32(void);
uint64_t vf_u64(void);
#define vf_i32()  ((int32_t)vf_u32())
#define vf_size() ((size_t)vf_u64())
bool     vf_bool(void);
/* symbolic value 0 <= v < n (n concrete or symbolic) */
unsigned vf_below(unsigned n);
/* a block of n bytes, 2^32 bytes after the block of place k - 1. */
void* vf_sym_far(size_t n, unsigned k);

#if defined(VF_SYMX)
void vf_sym_assume(int);
void vf_sym_assert(int, const char*);
void vf_sym_reach(const char*);
#define VF_ASSUME(c)      vf_sym_assume(!!(c))
#define VF_ASSERT(c, msg) vf_sym_assert(!!(c), msg)
#define VF_REACH(msg)     vf_sym_reach(msg)
#define VF_NOTE(...)      ((void)0)
#else
void vf_assume_native(int c, const char* txt, const char* file, int line);
void vf_assert_native(int c, const char* msg, const char* file, int line);
void vf_reach_native(const char* msg);
#include <stdio.h>
#define VF_ASSUME(c)      vf_assume_native(!!(c), #c, __FILE__, __LINE__)
#define VF_ASSERT(c, msg) vf_assert_native(!!(c), msg, __FILE__, __LINE__)
#define VF_REACH(msg)     vf_reach_native(msg)
#define VF_NOTE(...)      fprintf(stderr, __VA_ARGS__)
#endif

/* the entry point each harness defines. */
void vf_main(void);
