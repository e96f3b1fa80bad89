// Common harness support: cases, oracle failures, event counters, random numbers.
// A unit is one executable: it holds cases (CASE macro); tools/check.py runs it
// and reads the VF* lines it prints on stdout.
#pragma once
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  uint64_t operator()() { return next(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct State {
  std::mutex m;
  uint64_t seed = 1;
  bool thorough = false;
  double scale = 1.0;
  double mult = 1.0;
  std::string current;
  std::string only;
  std::map<std::string, uint64_t> events;
  std::map<std::string, int> fail_count;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  int samples_in_case = 0;
  std::atomic<uint64_t> nfail{0};
};
inline State& st() { static State* s = new State; return *s; }

inline uint64_t seed() { return st().seed; }
inline bool thorough() { return st().thorough; }
// number of rounds: q on a quick run, q*mult on a thorough one, scaled down for slow variants
inline size_t rounds(size_t q, size_t mult = 8) {
  double r = static_cast<double>(q) * (st().thorough ? static_cast<double>(mult) : 1.0) * st().scale * st().mult;
  return r < 1 ? 1 : static_cast<size_t>(r);
}
inline double scale() { return st().scale; }

// report an oracle failure. key identifies the failing check, detail the input.
inline void fail(const std::string& key, const char* fmt, ...) {
  char buf[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  s.nfail++;
  if (++s.fail_count[key] <= 3) {
    printf("VFFAIL\t%s\t%s\t%s\n", s.current.c_str(), key.c_str(), buf);
    fflush(stdout);
  }
}
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail((key), __VA_ARGS__); } while (0)

inline void event(const char* name, uint64_t n = 1) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  s.events[name] += n;
}
// one oracle evaluation; h identifies the input (or interleaving) observed, 0 = trivial
inline void eval(uint64_t h, bool nontrivial = true) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  s.evals++;
  if (nontrivial && s.distinct.size() < 4000000) s.distinct.insert(h);
}
inline void sample(const char* fmt, ...) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  if (s.samples_in_case >= 1) return;
  s.samples_in_case++;
  char buf[600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  s.samples.push_back(s.current + ": " + buf);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}
template <class... A> uint64_t H(A... a) {
  uint64_t h = 0x1234567;
  ((h = mix(h ^ mix(static_cast<uint64_t>(a)))), ...);
  return h;
}

// a result that must be the same in every build, configuration and worker count (compared by check.py
// between all runs of the unit); the work behind it must not depend on VF_SCALE or VF_ROUNDS
inline void digest(const std::string& what, uint64_t h) {
  auto& s = st();
  std::lock_guard<std::mutex> g(s.m);
  printf("VFDIGEST\t%s\t%s\t%016llx\n", s.current.c_str(), what.c_str(), static_cast<unsigned long long>(h));
}
struct CaseDef { std::string name; std::function<void(Rng&)> fn; };
inline std::vector<CaseDef>& cases() { static auto* c = new std::vector<CaseDef>; return *c; }
struct Reg { Reg(const char* n, std::function<void(Rng&)> f) { cases().push_back({n, std::move(f)}); } };

inline double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline int run(int argc, char** argv) {
  auto& s = st();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (const char* e = getenv("VERIF_SEED")) s.seed = strtoull(e, nullptr, 10);
  if (const char* e = getenv("VERIF_TIER")) s.thorough = !strcmp(e, "thorough");
  if (const char* e = getenv("VF_SCALE")) s.scale = atof(e);
  if (const char* e = getenv("VF_ROUNDS")) s.mult = atof(e);
  std::string only, from;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--only" && i + 1 < argc) only = argv[++i];
    else if (a == "--after" && i + 1 < argc) from = argv[++i];
    else if (a == "--list") { for (auto& c : cases()) printf("%s\n", c.name.c_str()); return 0; }
  }
  bool active = from.empty();
  for (auto& c : cases()) {
    if (!active) { if (c.name == from) active = true; continue; }
    if (!only.empty() && c.name != only) continue;
    s.current = c.name;
    s.samples_in_case = 0;
    uint64_t e0 = s.evals; size_t d0 = s.distinct.size();
    printf("VFCASE\t%s\n", c.name.c_str()); fflush(stdout);
    Rng r(mix(s.seed * 1000003ull ^ hash_str(c.name)));
    double t0 = now();
    c.fn(r);
    printf("VFDONE\t%s\t%" PRIu64 "\t%zu\t%.3f\n", c.name.c_str(), s.evals - e0, s.distinct.size() - d0, now() - t0);
    fflush(stdout);
  }
  for (auto& [k, v] : s.events) printf("VFEVENT\t%s\t%" PRIu64 "\n", k.c_str(), v);
  for (auto& x : s.samples) { std::string y = x; for (auto& ch : y) if (ch == '\n' || ch == '\t') ch = ' '; printf("VFSAMPLE\t%s\n", y.c_str()); }
  printf("VFEND\t%" PRIu64 "\t%zu\t%" PRIu64 "\n", s.evals, s.distinct.size(), static_cast<uint64_t>(s.nfail));
  fflush(stdout);
  return 0;
}
}  // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define CASE(name)                                                              \
  static void VF_CAT(vf_case_, __LINE__)(::vf::Rng & rng);                      \
  static ::vf::Reg VF_CAT(vf_reg_, __LINE__)(name, VF_CAT(vf_case_, __LINE__)); \
  static void VF_CAT(vf_case_, __LINE__)([[maybe_unused]] ::vf::Rng & rng)

#ifndef VF_NO_MAIN
int main(int argc, char** argv) { int r = ::vf::run(argc, argv); fflush(stdout); return r; }
#endif
