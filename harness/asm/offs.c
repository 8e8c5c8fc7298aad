/* where the fields the context switch uses lie, according to the C struct */
#include <stdio.h>
#include <stddef.h>
#include <rcpr/fiber.h>
#include <src/fiber/common/fiber_internal.h>
typedef RCPR_SYM(fiber) F;
int main(void)
{
    printf("{\"stack_ptr\":%zu,\"id\":%zu,\"reason\":%zu,\"param\":%zu,\"size\":%zu,\"make\":\"%s\",\"switch\":\"%s\"}\n",
        offsetof(F, stack_ptr), offsetof(F, restore_discipline_id), offsetof(F, restore_reason_code),
        offsetof(F, restore_param), sizeof(F),
#define S_(x) #x
#define S(x) S_(x)
        S(RCPR_SYM(fiber_make)), S(RCPR_SYM(fiber_switch)));
    return 0;
}
