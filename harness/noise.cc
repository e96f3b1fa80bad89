// Schedule noise. Units of the "noise" variant are compiled with
// -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores: clang then calls these
// functions before every load and store and on every edge of the code under test.
// With a small probability they yield, spin or sleep, so that the windows between any
// two steps of the real code are stretched at random, without any hook in the source.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <sched.h>
#include <time.h>
#include <unistd.h>

static std::atomic<uint32_t> g_seed{12345};
static uint32_t g_mask = 0xffffffff;   // noise when (r & mask) == 0
static uint32_t g_sleep = 0;
static std::atomic<uint64_t> g_hits{0}, g_edges{0};
static __thread uint32_t t_r;
static __thread uint32_t t_gate;

extern "C" __attribute__((no_sanitize("coverage"))) uint64_t vf_noise_hits() { return g_hits.load(); }
extern "C" uint64_t vf_noise_edges() { return g_edges.load(); }

__attribute__((constructor)) static void init() {
  if (const char* e = getenv("VF_NOISE")) { uint32_t b = (uint32_t)atoi(e); g_mask = b >= 32 ? 0xffffffff : ((1u << b) - 1); } else g_mask = (1u << 12) - 1;
  if (const char* e = getenv("VERIF_SEED")) g_seed = (uint32_t)atoi(e) * 7919u + 17;
  if (const char* e = getenv("VF_NOISE_SLEEP")) g_sleep = (uint32_t)atoi(e);
}

static inline void act() {
  uint32_t r = t_r;
  if (r == 0) { r = g_seed.fetch_add(0x9e3779b9u) | 1u; }
  r ^= r << 13; r ^= r >> 17; r ^= r << 5;
  t_r = r;
  if ((r & g_mask) != 0) return;
  g_hits.fetch_add(1, std::memory_order_relaxed);
  uint32_t k = (r >> 24) & 15;
  if (k < 6) sched_yield();
  else if (k < 13) { for (volatile uint32_t i = 0; i < (r >> 20 & 1023); i = i + 1) {} }
  else { struct timespec ts = {0, (long)(g_sleep ? g_sleep : 20) * 1000 * (1 + (long)((r >> 16) & 7))}; nanosleep(&ts, nullptr); }
}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) { uint32_t n = 0; for (uint32_t* x = start; x < stop; x++) if (!*x) *x = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) { if (*guard) { *guard = 0; g_edges.fetch_add(1, std::memory_order_relaxed); } act(); }
void __sanitizer_cov_load1(uint8_t*) { act(); }
void __sanitizer_cov_load2(uint16_t*) { act(); }
void __sanitizer_cov_load4(uint32_t*) { act(); }
void __sanitizer_cov_load8(uint64_t*) { act(); }
void __sanitizer_cov_load16(void*) { act(); }
void __sanitizer_cov_store1(uint8_t*) { act(); }
void __sanitizer_cov_store2(uint16_t*) { act(); }
void __sanitizer_cov_store4(uint32_t*) { act(); }
void __sanitizer_cov_store8(uint64_t*) { act(); }
void __sanitizer_cov_store16(void*) { act(); }
}
