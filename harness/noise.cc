// Called at every basic block of the project's code (-fsanitize-coverage=trace-pc-guard).
// Records which blocks ran, and, while switched on, perturbs the schedule at random blocks.
// Includes nothing of the harness, so that nothing in here is itself instrumented.
#include <sched.h>
#include <stdint.h>
#include <time.h>
#define QUIET __attribute__((no_sanitize("thread", "address", "undefined", "coverage")))
extern "C" {
static unsigned char cov[1 << 20];
static uint32_t nGuards;
// 0 = off; otherwise one block in about 2^bits yields, spins or sleeps
volatile unsigned verif_noise_bits = 0;
volatile unsigned verif_noise_sleep_us = 0;
static __thread uint64_t rs;
static volatile uint64_t seedBase = 88172645463325252ull;

QUIET void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (; a < b; ++a) { if (nGuards + 1 < sizeof(cov)) *a = ++nGuards; else *a = 0; }
}
QUIET void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (*g) cov[*g] = 1;
    unsigned bits = verif_noise_bits;
    if (!bits) return;
    uint64_t x = rs;
    if (!x) { seedBase += 0x9E3779B97F4A7C15ull; x = seedBase ^ (uint64_t)(uintptr_t)&x; if (!x) x = 1; }
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    rs = x;
    if ((x >> 20) & ((1u << bits) - 1)) return;
    unsigned w = (x >> 50) & 7;
    if (w < 4) sched_yield();
    else if (w < 7 || !verif_noise_sleep_us) { for (volatile unsigned i = 0; i < ((x >> 40) & 1023); ++i) {} }
    else { struct timespec t = {0, (long)((x >> 33) % (verif_noise_sleep_us + 1)) * 1000}; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0); }
}
QUIET void verif_noise(unsigned bits, unsigned sleep_us, uint64_t seed) {
    verif_noise_sleep_us = sleep_us;
    if (seed) seedBase = seed * 0x9E3779B97F4A7C15ull + 1;
    verif_noise_bits = bits;
}
QUIET uint64_t verif_blocks_run(void) {
    uint64_t n = 0;
    for (uint32_t i = 1; i <= nGuards; ++i) n += cov[i];
    return n;
}
QUIET uint64_t verif_blocks_total(void) { return nGuards; }
}
