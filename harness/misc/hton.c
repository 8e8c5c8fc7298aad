/* B01: every value of every width. */
#include "../vf.h"
#include <string.h>
#include <rcpr/socket_utilities.h>
RCPR_IMPORT_socket_utilities;

#define CHECK(T, U, W, hton, ntoh) do { \
    U v = (U)vf_u##W(); \
    T h = hton((T)v); \
    uint8_t b[W / 8]; memcpy(b, &h, W / 8); \
    for (int i = 0; i < W / 8; ++i) \
        VF_ASSERT(b[i] == (uint8_t)(v >> (8 * (W / 8 - 1 - i))), "network order is most significant byte first"); \
    VF_ASSERT((U)ntoh(h) == v, "network-to-host is the inverse of host-to-network"); \
    uint8_t n[W / 8]; for (int i = 0; i < W / 8; ++i) n[i] = (uint8_t)(v >> (8 * (W / 8 - 1 - i))); \
    memcpy(&h, n, W / 8); \
    VF_ASSERT((U)ntoh(h) == v, "network-to-host reads most significant byte first"); \
    VF_REACH("width " #W); } while (0)

void vf_main(void)
{
    CHECK(int16_t, uint16_t, 16, socket_utility_hton16, socket_utility_ntoh16);
    CHECK(int32_t, uint32_t, 32, socket_utility_hton32, socket_utility_ntoh32);
    CHECK(int64_t, uint64_t, 64, socket_utility_hton64, socket_utility_ntoh64);
}
