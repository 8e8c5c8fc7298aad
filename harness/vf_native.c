#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
static FILE* in;
static int exhausted;
static uint64_t next(void)
{
    unsigned long long v;
    if (!in || exhausted || 1 != fscanf(in, "%llu", &v)) { exhausted = 1; return 0; }
    return v;
}
uint8_t  vf_u8(void)  { return (uint8_t)next(); }
uint16_t vf_u16(void) { return (uint16_t)next(); }
uint32_t vf_u32(void) { return (uint32_t)next(); }
uint64_t vf_u64(void) { return next(); }
bool     vf_bool(void){ return next() & 1; }
unsigned vf_below(unsigned n)
{
    unsigned v = (unsigned)next();
    VF_ASSUME(v < n);
    return v;
}
/* exit codes: 0 ran to the end, 77 left the assumed region, 42 assertion
 * failed, anything else: the sanitizer or a signal. */
void vf_assume_native(int c, const char* txt, const char* file, int line)
{
    if (!c)
    {
        fprintf(stderr, "VF-ASSUME-FALSE %s:%d %s\n", file, line, txt);
        fflush(stdout); fflush(stderr);
        _exit(77);
    }
}
void vf_assert_native(int c, const char* msg, const char* file, int line)
{
    if (!c)
    {
        fprintf(stderr, "VF-ASSERT-FAILED %s:%d %s\n", file, line, msg);
        fflush(stdout); fflush(stderr);
        _exit(42);
    }
}
void vf_reach_native(const char* msg)
{
    fprintf(stderr, "VF-REACHED %s\n", msg);
}
void* vf_sym_far(size_t n, unsigned k)
{
    void* at = (void*)(uintptr_t)(0x312800000000u + ((uint64_t)k << 32));
    void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != at) { fprintf(stderr, "VF-ASSUME-FALSE harness: no far block\n"); _exit(77); }
    return p;
}
int main(int argc, char** argv)
{
    if (argc > 1) in = fopen(argv[1], "r");
    vf_main();
    fprintf(stderr, "VF-END%s\n", exhausted ? " inputs-exhausted" : "");
    fflush(stderr);
    _exit(0);
}
