// C20: the harness SRC under the stricter build (undefined operations trap), and nothing may be
// left allocated when everything has been freed.
#define harness inner_harness
#include SRC
#undef harness
void harness(void)
{
    u64 before = dse_live_allocs();
    inner_harness();
    dse_assert(dse_live_allocs() == before, "everything allocated is released");
}
