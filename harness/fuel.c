/* Edge-count budget ("fuel") and edge coverage, driven by LLVM's trace-pc-guard instrumentation.
   Decides non-termination without a clock: the count of executed edges is a pure function of the case. */
#include <stdint.h>
#include <unistd.h>
#include <string.h>

#define MAP 262144u
static uint8_t map_[MAP];
static uint32_t n_guards;
static __thread int64_t fuel = INT64_MAX;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) {
        uint32_t id = ++n_guards;
        *x = id < MAP ? id : MAP - 1;
    }
}

void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    uint8_t *at = &map_[*guard & (MAP - 1)];
    *at += *at != 255;
    if (__builtin_expect(--fuel < 0, 0)) {
        static const char m[] = "FUEL-EXHAUSTED\n";
        ssize_t r = write(2, m, sizeof m - 1);
        (void)r;
        _exit(77);
    }
}

static __thread int64_t base = INT64_MAX;
static int64_t spent;
void vt_fuel_set(int64_t f) {
    __atomic_fetch_add(&spent, base - fuel, __ATOMIC_RELAXED);
    base = fuel = f;
}
/* Edges all threads ran up to their last vt_fuel_set. */
int64_t vt_edges_spent(void) { return __atomic_load_n(&spent, __ATOMIC_RELAXED); }
int64_t vt_fuel_get(void) { return fuel; }
uint32_t vt_edges_covered(void) {
    uint32_t n = 0;
    for (uint32_t i = 1; i < MAP; i++) n += map_[i] != 0;
    return n;
}
/* For the guided search: what the case just run did that none before it had done, as edges and how often each ran. */
static uint8_t seen_[MAP];
void vt_case_begin(void) { memset(map_, 0, n_guards + 1 < MAP ? n_guards + 1 : MAP); }
uint32_t vt_case_new(void) {
    uint32_t n = 0, end = n_guards + 1 < MAP ? n_guards + 1 : MAP;
    for (uint32_t i = 1; i < end; i++) {
        uint8_t c = map_[i];
        if (!c) continue;
        uint8_t bit = c == 1 ? 1 : c < 4 ? 2 : c < 16 ? 4 : c < 128 ? 8 : 16;
        n += !(seen_[i] & bit);
        seen_[i] |= bit;
    }
    return n;
}
uint32_t vt_edges_seen(void) {
    uint32_t n = 0;
    for (uint32_t i = 1; i < MAP; i++) n += seen_[i] != 0;
    return n;
}
uint32_t vt_edges_total(void) { return n_guards; }
