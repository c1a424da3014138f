/* Where the compiler's inline edge counters of csvpp are (see rustc.sh); the runner reads them after
 * each case, to keep the cases which reached something new. */
#include <stddef.h>
#include <stdint.h>

static uint8_t *starts[256], *stops[256];
static size_t regions;

void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
    for (size_t i = 0; i < regions; i++)
        if (starts[i] == start) return;
    if (start < stop && regions < 256) {
        starts[regions] = start;
        stops[regions++] = stop;
    }
}

size_t verif_cov_region(size_t i, uint8_t **start) {
    if (i >= regions) return 0;
    *start = starts[i];
    return (size_t)(stops[i] - starts[i]);
}

/* How close each comparison came: a counter per place and number of differing bits */
#define CMPS 65536
static uint8_t cmps[CMPS];

__attribute__((constructor)) static void add_cmps(void) {
    starts[regions] = cmps;
    stops[regions++] = cmps + CMPS;
}

static inline void near(uintptr_t pc, uint64_t a, uint64_t b) {
    uint64_t d = a == b ? 0 : (uint64_t)(65 - __builtin_popcountll(a ^ b));
    cmps[((pc * 0x9E3779B1u) ^ (d * 0x85EBCA6Bu)) % CMPS] = 1;
}
/* (relative, so that it is the same in each run) */
#define PC ((uintptr_t)__builtin_return_address(0) - (uintptr_t)&add_cmps)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { near(PC, a, b); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) { (void)v; (void)cases; }
