#include "vf_res.h"

RCPR_IMPORT_resource;

unsigned vf_releases;

static status vr_release(RCPR_SYM(resource)* r)
{
    vf_res* v = (vf_res*)r;
    VF_ASSERT(v->released == 0, "an owned resource is released at most once");
    ++v->released;
    ++vf_releases;
    return v->fail_release ? VF_RES_FAIL : STATUS_SUCCESS;
}

RCPR_VTABLE RCPR_SYM(resource_vtable) vf_res_vtable = { &vr_release };

void vf_res_init(vf_res* r)
{
    resource_init(&r->hdr, &vf_res_vtable);
    r->released = 0;
    r->fail_release = false;
}
