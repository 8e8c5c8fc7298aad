/* Runs the real fiber_make and fiber_switch with the register contents given
 * in argv[1] (one number per line) and checks what F04 promises.
 * exit 0: it held, 42: it did not (says what). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/wait.h>
#include <rcpr/fiber.h>
#include <src/fiber/common/fiber_internal.h>
typedef RCPR_SYM(fiber) F;
#define S_(x) #x
#define S(x) S_(x)

struct regs { uint64_t rbx, rbp, r12, r13, r14, r15, mxcsr, fcw; };
struct regs v_in, v_out, v_b, v_bout, v_entry;
uint64_t v_rsp_in, v_rsp_out, v_rsp_saved, v_bsp_in, v_bsp_out;
uint64_t e_rdi, e_rsi, e_rsp, e_ret;
uint64_t v_mx0, v_cw0;
uint64_t a0[5], a1[5], a2[5];
void drv_ab(void); /* main -> fiber with a0, back to main; then a2 */
void drv_make(void);
uint64_t v_switch_target;

__asm__(
".text\n"
".macro LOADREGS s\n"
"  movq \\s+0(%rip),%rbx\n  movq \\s+8(%rip),%rbp\n  movq \\s+16(%rip),%r12\n  movq \\s+24(%rip),%r13\n"
"  movq \\s+32(%rip),%r14\n  movq \\s+40(%rip),%r15\n  ldmxcsr \\s+48(%rip)\n  fldcw \\s+56(%rip)\n"
".endm\n"
".macro SAVEREGS s\n"
"  movq %rbx,\\s+0(%rip)\n  movq %rbp,\\s+8(%rip)\n  movq %r12,\\s+16(%rip)\n  movq %r13,\\s+24(%rip)\n"
"  movq %r14,\\s+32(%rip)\n  movq %r15,\\s+40(%rip)\n  stmxcsr \\s+48(%rip)\n  fnstcw \\s+56(%rip)\n"
".endm\n"
".macro ARGS s\n"
"  movq \\s+0(%rip),%rdi\n  movq \\s+8(%rip),%rsi\n  movq \\s+16(%rip),%rdx\n  movq \\s+24(%rip),%rcx\n  movq \\s+32(%rip),%r8\n"
".endm\n"
".globl drv_ab\ndrv_ab:\n"
"  pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $8,%rsp\n"
"  stmxcsr v_mx0(%rip)\n  fnstcw v_cw0(%rip)\n"
"  movq %rsp,v_rsp_in(%rip)\n"
"  LOADREGS v_in\n  ARGS a0\n  call *v_switch_target(%rip)\n"
"  movq %rsp,v_rsp_out(%rip)\n  movq v_rsp_in(%rip),%rsp\n  SAVEREGS v_out\n"
"  ldmxcsr v_mx0(%rip)\n  fldcw v_cw0(%rip)\n"
"  addq $8,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\n"
".globl drv_make\ndrv_make:\n"
"  pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $8,%rsp\n"
"  stmxcsr v_mx0(%rip)\n  fnstcw v_cw0(%rip)\n"
"  movq %rsp,v_rsp_in(%rip)\n"
"  LOADREGS v_in\n  ARGS a0\n  call " S(RCPR_SYM(fiber_make)) "\n"
"  movq %rsp,v_rsp_out(%rip)\n  movq v_rsp_in(%rip),%rsp\n  SAVEREGS v_out\n"
"  ldmxcsr v_mx0(%rip)\n  fldcw v_cw0(%rip)\n"
"  addq $8,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\n"
/* the fiber: record the entry state, switch away with other registers, come
 * back, check, and return from the entry function */
".globl drv_entry\ndrv_entry:\n"
"  movq %rdi,e_rdi(%rip)\n  movq %rsi,e_rsi(%rip)\n  movq %rsp,e_rsp(%rip)\n  SAVEREGS v_entry\n"
"  subq $8,%rsp\n  movq %rsp,v_bsp_in(%rip)\n"
"  LOADREGS v_b\n  ARGS a1\n  call *v_switch_target(%rip)\n"
"  movq %rsp,v_bsp_out(%rip)\n  movq v_bsp_in(%rip),%rsp\n  SAVEREGS v_bout\n"
"  call drv_back\n"
"  addq $8,%rsp\n"
"  LOADREGS v_b\n"
"  ret\n"
);
void drv_entry(void);

static int bad;
#define CK(c, what) do { if (!(c)) { printf("VF-ASSERT-FAILED %s\n", what); bad = 1; } } while (0)
static void same(const struct regs* a, const struct regs* b, const char* who)
{
    char m[128];
#define R(x) do { snprintf(m, sizeof m, "%s: " #x, who); CK(a->x == b->x, m); } while (0)
    R(rbx); R(rbp); R(r12); R(r13); R(r14); R(r15);
    snprintf(m, sizeof m, "%s: mxcsr", who); CK((a->mxcsr & 0xffc0) == (b->mxcsr & 0xffc0), m);
    snprintf(m, sizeof m, "%s: fcw", who); CK((a->fcw & 0xffff) == (b->fcw & 0xffff), m);
}
static F fa, fb, fa0, fb0;
static uint8_t* region; static size_t size = 65536;
static uint8_t* copy;
static void restored(F* f, uint64_t* a, const char* who)
{
    CK((uint64_t)f->restore_discipline_id == a[2], who);
    CK(f->restore_reason_code == a[3], who);
    CK((uint64_t)f->restore_param == a[4], who);
}
static void others(F* f, F* old, const char* who)
{
    F x = *old;
    x.stack_ptr = f->stack_ptr; x.restore_discipline_id = f->restore_discipline_id;
    x.restore_reason_code = f->restore_reason_code; x.restore_param = f->restore_param;
    CK(!memcmp(&x, f, sizeof x), who);
}
void drv_back(void)
{
    CK(v_bsp_out == v_bsp_in, "fiber: stack pointer after a round trip");
    same(&v_b, &v_bout, "fiber after a round trip");
    restored(&fb, a2, "fiber: restore fields of the second switch");
    if (bad) { fflush(stdout); _exit(0); }
}
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "r");
    uint64_t v[40] = {0}; int n = 0; unsigned long long x;
    while (n < 40 && fscanf(f, "%llu", &x) == 1) v[n++] = x;
    fclose(f);
    memcpy(&v_in, v, sizeof v_in); memcpy(&v_b, v + 8, sizeof v_b);
    v_in.mxcsr = (v_in.mxcsr & 0xe040) | 0x1f80; v_b.mxcsr = (v_b.mxcsr & 0xe040) | 0x1f80;
    v_in.fcw = (v_in.fcw & 0x0f00) | 0x7f; v_b.fcw = (v_b.fcw & 0x0f00) | 0x7f;
    region = malloc(size + 4096); copy = malloc(size + 4096);
    uint64_t off = v[31] & 15; /* misaligned top */
    memset(region, 0x5a, size + 4096);
    memset(&fa, 0xa1, sizeof fa); memset(&fb, 0xb2, sizeof fb);
    uint8_t* top = (uint8_t*)(((uint64_t)region + size) & ~(uint64_t)15) + off;
    fb.stack_ptr = top;
    fa0 = fa; fb0 = fb; memcpy(copy, region, size + 4096);
    v_switch_target = (uint64_t)&RCPR_SYM(fiber_switch);
    uint64_t sched = v[16];
    a0[0] = (uint64_t)&fb; a0[1] = sched; a0[2] = (uint64_t)&drv_entry; a0[3] = 0; a0[4] = 0;
    drv_make();
    CK(v_rsp_in == v_rsp_out, "fiber_make: stack pointer");
    same(&v_in, &v_out, "fiber_make");
    struct regs mk = v_in;
    others(&fb, &fb0, "fiber_make: other fields of the fiber");
    CK(fb.restore_discipline_id == fb0.restore_discipline_id && fb.restore_reason_code == fb0.restore_reason_code
        && fb.restore_param == fb0.restore_param, "fiber_make: restore fields");
    for (size_t i = 0; i < size + 4096; ++i)
        if (region[i] != copy[i] && !(region + i >= top - 256 && region + i < top)) { CK(0, "fiber_make: memory outside the top of the stack"); break; }
    /* main -> fiber */
    a0[0] = (uint64_t)&fa; a0[1] = (uint64_t)&fb; a0[2] = v[17]; a0[3] = v[18]; a0[4] = v[19];
    a1[0] = (uint64_t)&fb; a1[1] = (uint64_t)&fa; a1[2] = v[20]; a1[3] = v[21]; a1[4] = v[22];
    a2[0] = (uint64_t)&fa; a2[1] = (uint64_t)&fb; a2[2] = v[23]; a2[3] = v[24]; a2[4] = v[25];
    if (bad) { fflush(stdout); return 42; }
    fflush(stdout);
    int pid = fork();
    if (!pid) {
        v_in.mxcsr ^= 0x6000; v_in.fcw ^= 0x0c00; /* control words at the switch differ from those at the making */
        drv_ab();
        CK(v_rsp_in == v_rsp_out, "main: stack pointer after a round trip");
        same(&v_in, &v_out, "main after a round trip");
        restored(&fa, a1, "main: restore fields");
        restored(&fb, a0, "fiber: restore fields of the first switch");
        others(&fa, &fa0, "main: other fields of the fiber"); others(&fb, &fb0, "fiber: other fields");
        CK(e_rdi == sched, "entry: scheduler"); CK(e_rsi == (uint64_t)&fb, "entry: fiber");
        CK(e_rsp % 16 == 8, "entry: alignment"); CK(e_rsp + 8 <= (uint64_t)top && e_rsp >= (uint64_t)top - 256, "entry: own stack");
        CK((mk.mxcsr & 0xffc0) == (v_entry.mxcsr & 0xffc0) && mk.fcw == v_entry.fcw, "entry: control words of the making");
        if (bad) { fflush(stdout); _exit(0); }
        memcpy(a0, a2, sizeof a0);
        drv_ab();
        printf("VF-ASSERT-FAILED the fiber's entry function returned to main\n"); fflush(stdout);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) { printf("VF-ASSERT-FAILED the child died of signal %d\n", WTERMSIG(st)); return 42; }
    if (WEXITSTATUS(st) == 0) { printf("VF-ASSERT-FAILED exit status 0\n"); return 42; }
    printf("VF-REACHED end\n");
    return 0;
}
