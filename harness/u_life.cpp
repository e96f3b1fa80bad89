// P04: progress. Idle periods, sleeping and waking workers, scheduler start-up and shutdown.
#include "gen.h"
#include <parlay/parallel.h>
#include <parlay/primitives.h>

using namespace vf;

static uint64_t burst(Rng& r) {
  size_t n = 1 + r.below(400);
  std::vector<uint64_t> out(n);
  parlay::parallel_for(0, n, [&](size_t i) { out[i] = mix(i); if (i % 32 == 0) spin_ns(500); }, 1);
  uint64_t bad = 0;
  for (size_t i = 0; i < n; i++) bad += out[i] != mix(i);
  return bad;
}
static void idle(Rng& r) {
  switch (r.below(6)) {
    case 0: break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(500))); break;
    // around the time at which an idle worker decides to sleep
    case 2: std::this_thread::sleep_for(std::chrono::microseconds(9000 + r.below(3000))); break;
    case 3: std::this_thread::sleep_for(std::chrono::microseconds(PARLAY_ELASTIC_STEAL_TIMEOUT + r.below(400))); break;
    case 4: spin_ns(1000 * (PARLAY_ELASTIC_STEAL_TIMEOUT < 100000 ? PARLAY_ELASTIC_STEAL_TIMEOUT : 1000) + r.below(300000)); break;
    default: std::this_thread::sleep_for(std::chrono::microseconds(r.below(20000)));
  }
}

CASE("bursts-after-idle") {
  Watchdog wd(100, "bursts-after-idle");
  for (size_t it = 0, R = rounds(200, 10); it < R; it++) {
    idle(rng);
    VF_CHECK(burst(rng) == 0, "burst:result", "a loop after an idle period lost iterations");
    wd.tick(); event("bursts_after_idle"); eval(H(it, 1));
  }
  sample("bursts of 1-400 tasks separated by idle periods of 0-20 ms around the steal timeout");
}

CASE("create-destroy") {
  Watchdog wd(100, "create-destroy");
  for (size_t it = 0, R = rounds(250, 10); it < R; it++) {
    unsigned p = static_cast<unsigned>(1 + rng.below(16));
    int kind = static_cast<int>(rng.below(5));
    parlay::execute_with_scheduler(p, [&] {
      if (kind == 0) return;                     // destroyed while its workers are still starting
      if (kind == 1) { idle(rng); return; }      // destroyed while its workers fall asleep
      if (kind == 2) { (void)burst(rng); return; }
      if (kind == 3) { (void)burst(rng); idle(rng); return; }
      idle(rng); (void)burst(rng);
    });
    wd.tick(); event("schedulers_shut_down"); eval(H(p, kind, it));
  }
  sample("schedulers of 1-16 workers destroyed at once, after idling, after work, after both");
}

// Sleeping workers are woken by new work: with everybody asleep, a branch offered by this
// worker starts although this worker does not get to it (it waits inside its own branch).
// A worker that is only just falling asleep may legitimately miss one offer, so single
// misses are tolerated; a wake-up that does not work misses (nearly) every time.
CASE("wake-one") {
  if (parlay::num_workers() < 2) return;
  Watchdog wd(150, "wake-one");
  int missed = 0, tried = 0;
  for (size_t it = 0, R = rounds(24, 4); it < R || tried < 10; it++) {
    std::this_thread::sleep_for(std::chrono::milliseconds(25 + rng.below(20)));
    std::atomic<bool> started{false};
    bool met = false;
    parlay::par_do([&] { double t = now(); while (!(met = started.load()) && now() - t < 2.0) std::this_thread::yield(); }, [&] { started = true; });
    tried++; if (!met) missed++;
    wd.tick(); eval(H(it, met));
    if (missed >= 8) break;
  }
  event("wake_trials", static_cast<uint64_t>(tried)); event("wake_misses", static_cast<uint64_t>(missed));
  VF_CHECK(missed * 2 < tried, "wake:one", "in %d of %d trials a branch offered while the other workers slept was not started within 2 s", missed, tried);
  sample("%d trials, %d missed", tried, missed);
}
// The same for all workers: one woken worker wakes the next as long as there is more to take.
CASE("wake-all") {
  size_t P = parlay::num_workers(); if (P < 2) return;
  Watchdog wd(150, "wake-all");
  int missed = 0, tried = 0; uint64_t best = 0;
  for (size_t it = 0, R = rounds(20, 4); it < R || tried < 10; it++) {
    std::this_thread::sleep_for(std::chrono::milliseconds(25 + rng.below(20)));
    std::atomic<size_t> started{0}; std::atomic<bool> all{false};
    parlay::parallel_for(0, P, [&](size_t) {
      started++; double t = now();
      while (started.load() < P && now() - t < 2.0) std::this_thread::yield();
      if (started.load() == P) all = true;
    }, 1);
    best = std::max<uint64_t>(best, started.load());
    tried++; if (!all) missed++;
    wd.tick(); eval(H(it, all.load()));
    if (missed >= 8) break;
  }
  event("wake_all_trials", static_cast<uint64_t>(tried)); event("wake_all_misses", static_cast<uint64_t>(missed));
  VF_CHECK(missed * 2 < tried, "wake:all", "in %d of %d trials the %zu sleeping workers were not all woken within 2 s by %zu waiting tasks", missed, tried, P, P);
  sample("%d trials with %zu workers, %d missed", tried, P, missed);
}

// application threads that come, use the library and go
CASE("application-threads") {
  Watchdog wd(100, "application-threads");
  for (size_t it = 0, R = rounds(25, 10); it < R; it++) {
    int T = static_cast<int>(1 + rng.below(5)); std::atomic<uint64_t> bad{0}; std::vector<std::thread> th; uint64_t sd = rng.next();
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
      Rng r(mix(sd + static_cast<uint64_t>(t)));
      for (int k = 0; k < 3; k++) { if (r.chance(1, 2)) idle(r); bad += burst(r); }
      if (r.chance(1, 3)) parlay::execute_with_scheduler(static_cast<unsigned>(1 + r.below(4)), [&] { bad += burst(r); });
      wd.tick();
    });
    for (auto& x : th) x.join();
    VF_CHECK(bad == 0, "appthreads:result", "%llu iterations lost", static_cast<unsigned long long>(bad.load()));
    event("application_threads_ended", static_cast<uint64_t>(T)); eval(H(sd));
  }
  sample("1-5 threads with own schedulers, idle and busy phases");
}

// conservative mode: a lock may be held across the wait, since the waiting worker does not
// pick up unrelated tasks that want the same lock
CASE("conservative-with-locks") {
  Watchdog wd(100, "conservative-with-locks");
  for (size_t it = 0, R = rounds(150, 10); it < R; it++) {
    std::mutex m; uint64_t sum = 0; size_t n = 64 + rng.below(64);
    parlay::parallel_for(0, n, [&](size_t i) {
      std::lock_guard<std::mutex> g(m);
      std::atomic<uint64_t> s{0};
      parlay::par_do([&] { s += i; spin_ns(300); }, [&] { s += 1; spin_ns(600); }, true);
      if (i % 4 == 0) parlay::parallel_for(0, 8, [&](size_t j) { s += j; }, 1, true);
      sum += s.load();
      wd.tick();
    }, 1);
    uint64_t want = 0; for (size_t i = 0; i < n; i++) want += i + 1 + (i % 4 == 0 ? 28 : 0);
    VF_CHECK(sum == want, "locks:sum", "sum %llu instead of %llu", static_cast<unsigned long long>(sum), static_cast<unsigned long long>(want));
    event("conservative_waits_under_lock", n); eval(H(it, n));
  }
  sample("64-128 tasks that fork conservatively while holding one mutex");
}

// long-running uneven work with sleeps inside tasks: others go to sleep and wake again while a
// few tasks are blocked
CASE("uneven") {
  Watchdog wd(100, "uneven");
  for (size_t it = 0, R = rounds(25, 10); it < R; it++) {
    size_t n = 20 + rng.below(60); std::atomic<uint64_t> c{0}; uint64_t sd = rng.next();
    parlay::parallel_for(0, n, [&](size_t i) {
      uint64_t h = mix(sd + i);
      if (h % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(h % 15000));
      parlay::par_do([&] { if (h % 16 == 1) std::this_thread::sleep_for(std::chrono::microseconds(h % 12000)); c++; }, [&] { c++; });
      wd.tick();
    }, 1);
    VF_CHECK(c == 2 * n, "uneven:count", "%llu of %zu branches run", static_cast<unsigned long long>(c.load()), 2 * n);
    event("uneven_loops"); eval(H(sd));
  }
  sample("loops whose tasks sleep up to 15 ms before forking");
}
