/* E01: the codes the public headers define (vf_codes.h lists their names, made
 * from the headers on every run). */
#include "../vf.h"
#include <string.h>
#include <rcpr/status.h>
#include <rcpr/component.h>
#include <rcpr/fiber.h>
#include <rcpr/fiber/disciplines/condition.h>
#include <rcpr/fiber/disciplines/management.h>
#include <rcpr/fiber/disciplines/message.h>
#include <rcpr/fiber/disciplines/psock_io.h>
#include <rcpr/uuid.h>
#include "vf_codes.h"
RCPR_IMPORT_uuid;
#define ONE(n) (int64_t)(n),
static const int64_t errors[] = { VF_ERRORS(ONE) };
static const int64_t parts[] = { VF_COMPONENTS(ONE) };
#define EV(g, n) { g, n },
static const struct { int group; int64_t code; } events[] = { VF_EVENTS(EV) };
enum { NE = sizeof errors / sizeof *errors, NC = sizeof parts / sizeof *parts, NV = sizeof events / sizeof *events };
static const rcpr_uuid* ids[] = { &FIBER_SCHEDULER_CONDITION_DISCIPLINE, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE };
void vf_main(void)
{
    unsigned what = vf_below(5), i, j;
    if (what == 0)
    {
        /* every component and reason. */
        uint32_t c = vf_u16(), d = vf_u16(), r = vf_u16() & 0x7fff, s = vf_u16() & 0x7fff;
        status a = STATUS_CODE(1, c, r), b = STATUS_CODE(1, d, s), g = STATUS_CODE(0, c, r);
        VF_ASSERT(a < 0 && g >= 0, "an error code is told from a success");
        VF_ASSERT((a == b) == (c == d && r == s), "a code stands for one component and reason");
        VF_ASSERT(((uint32_t)a >> 15 & 0xffff) == c && ((uint32_t)a & 0x7fff) == r, "and they can be read from it");
        VF_REACH("codes");
    }
    else if (what == 1)
    {
        i = vf_below(NE); j = vf_below(NE); VF_ASSUME(i != j);
        VF_ASSERT(STATUS_SUCCESS == 0 && errors[i] < 0 && errors[i] >= INT32_MIN, "an error is no success");
        VF_ASSERT(errors[i] != errors[j], "no two errors have the same code");
        VF_REACH("errors");
    }
    else if (what == 2)
    {
        i = vf_below(NC); j = vf_below(NC); VF_ASSUME(i != j);
        VF_ASSERT(parts[i] != parts[j] && parts[i] >= 0 && parts[i] <= 0xffff, "no two components have the same code");
        VF_REACH("components");
    }
    else if (what == 3)
    {
        i = vf_below(NV); j = vf_below(NV); VF_ASSUME(i != j && events[i].group == events[j].group);
        VF_ASSERT(events[i].code != events[j].code, "no two events of one kind have the same code");
        VF_REACH("events");
    }
    else
    {
        for (i = 0; i < 4; ++i) for (j = 0; j < i; ++j) VF_ASSERT(memcmp(ids[i], ids[j], sizeof *ids[i]) != 0, "the disciplines have identifiers of their own");
        VF_REACH("identifiers");
    }
}
