/* A05: release of one resource (KIND) while any reclaim may be refused. */
void vf_main(void)
{
    a = pa = vf_allocator_get();
    vf_res_init(&payload);
    prepare();
    unsigned live = vf_live; int os = os_live;
    VF_ASSERT(construct() == STATUS_SUCCESS, "construction succeeds");
    unsigned drawn = vf_live;
    resource* h = handle();
    status s;
    if (KIND == K_PSOCK_BR || !sched || KIND == K_FIBER || KIND == K_FIBER_THREAD || KIND == K_PSOCK_ASYNC)
    {
        vf_reclaim_may_fail = close_may_fail = true;
        if (KIND == K_MESSAGE) payload.fail_release = vf_bool();
        s = resource_release(h);
        vf_reclaim_may_fail = close_may_fail = false;
        bool other = payload.fail_release;   /* the answer of close is nobody's business */
        if (vf_reclaim_failures && !other) { VF_ASSERT(s == VF_RECLAIM_FAIL, "a refused reclaim is reported"); VF_REACH("refused"); }
        else if (other) { VF_ASSERT(s != STATUS_SUCCESS, "a failure to release what it owns is reported"); VF_REACH("failed below"); }
        else { VF_ASSERT(s == STATUS_SUCCESS, "a release with nothing refused succeeds"); VF_REACH("released"); }
        if (KIND == K_MESSAGE) VF_ASSERT(payload.released == 1, "the payload is released with its message");
        if (KIND == K_PSOCK_USER) VF_ASSERT(user_released == 1, "the user's release is called once");
        if (KIND == K_PSOCK_DESC || KIND == K_PSOCK_ASYNC) VF_ASSERT(!sock_open, "the descriptor is closed with its socket");
        if (!sched) VF_ASSERT(vf_live == live, "every block is given back even when one is refused");
    }
    else VF_ASSERT(drawn >= live, "the scheduler owns it");
    if (KIND == K_PSOCK_BR) VF_ASSERT(resource_release(psock_resource_handle(child)) == STATUS_SUCCESS, "release succeeds");
    if (KIND == K_BIGCLONE) VF_ASSERT(resource_release(bigint_resource_handle(big)) == STATUS_SUCCESS, "release succeeds");
    if (sched) VF_ASSERT(resource_release(fiber_scheduler_resource_handle(sched)) == STATUS_SUCCESS, "releasing the scheduler succeeds");
    VF_ASSERT(vf_live == 0, "every block drawn has been reclaimed");
    VF_ASSERT(os_live == 0, "every system resource drawn has been given back");
    (void)os;
}
