/* A user-defined resource that counts how often it is released. */
#pragma once
#include "vf.h"
#include <rcpr/resource.h>
#include <rcpr/resource/protected.h>
#include <rcpr/vtable.h>

typedef struct vf_res vf_res;
struct vf_res
{
    RCPR_SYM(resource) hdr;
    unsigned released;
    bool fail_release;
};
/* total number of releases. */
extern unsigned vf_releases;
#define VF_RES_FAIL 0x7ffe
void vf_res_init(vf_res* r);
