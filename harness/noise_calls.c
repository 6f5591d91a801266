/* The library is compiled with -finstrument-functions: any call or return, inlined ones included, may be delayed, so that two steps of one function are
 * pulled apart wherever it calls something between them. A quarter of the intensity set for the synchronisation calls; hits count what was delayed. */
#include "vp.h"
void vps_point(void);
static __thread uint64_t x;
__attribute__((no_instrument_function)) static void pt(void) { int e = errno; if (!x) x = (uint64_t)(uintptr_t)&x ^ 0x9E3779B97F4A7C15ull; x ^= x << 13; x ^= x >> 7; x ^= x << 17; if (x >> 20 & 3) { errno = e; return; } vps_point(); errno = e; }
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* f, void* c) { (void)f; (void)c; pt(); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void* f, void* c) { (void)f; (void)c; pt(); }
