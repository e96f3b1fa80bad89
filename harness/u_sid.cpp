// P03: worker ids, worker counts, nested and concurrent schedulers.
#include "gen.h"
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/worker_specific.h>

using namespace vf;
using parlay::num_workers; using parlay::worker_id;

// Slots of one scheduler instance: which thread is running under each worker id.
struct Slots {
  size_t p; std::vector<std::atomic<uint64_t>> owner; std::vector<std::atomic<uint64_t>> hits;
  std::atomic<uint64_t> bad_range{0}, shared{0}, bad_p{0}, moved{0};
  std::atomic<uint64_t> me_counter{1};
  explicit Slots(size_t p_) : p(p_), owner(p_), hits(p_) {}
  static uint64_t self() { static std::atomic<uint64_t> c{1}; static thread_local uint64_t id = c.fetch_add(1); return id; }
  // enter a body; nested bodies on the same thread are allowed (helping), another thread under the same id is not
  struct Guard {
    Slots& s; size_t id; uint64_t prev; bool ok = false;
    explicit Guard(Slots& s_) : s(s_), id(worker_id()), prev(0) {
      if (num_workers() != s.p) s.bad_p++;
      if (id >= s.p) { s.bad_range++; return; }
      uint64_t me = self(), e = 0;
      if (s.owner[id].compare_exchange_strong(e, me)) { prev = 0; ok = true; }
      else if (e == me) { prev = me; ok = true; }
      else s.shared++;
      s.hits[id]++;
    }
    ~Guard() { if (ok) { if (worker_id() != id) s.moved++; if (prev == 0) s.owner[id].store(0); } }
  };
  void verify(const char* what) {
    if (bad_range) fail("ids:range", "%s: %llu bodies ran with a worker id that is not below the worker count %zu", what, static_cast<unsigned long long>(bad_range.load()), p);
    if (shared) fail("ids:shared", "%s: %llu times two threads ran at once under one worker id (p=%zu)", what, static_cast<unsigned long long>(shared.load()), p);
    if (bad_p) fail("ids:count", "%s: num_workers() differed from %zu in %llu bodies", what, p, static_cast<unsigned long long>(bad_p.load()));
    if (moved) fail("ids:moved", "%s: the worker id changed inside %llu bodies", what, static_cast<unsigned long long>(moved.load()));
  }
  uint64_t used() const { uint64_t k = 0; for (auto& h : hits) k += h.load() > 0; return k; }
};

static void work(Slots& s, size_t n, uint64_t sd, bool helping) {
  parlay::parallel_for(0, n, [&](size_t i) {
    Slots::Guard g(s);
    if (mix(sd + i) % 8 == 0) spin_ns(1500);
    if (helping && mix(sd ^ i) % 4 == 0) {
      parlay::par_do([&] { Slots::Guard g2(s); if (i % 3 == 0) std::this_thread::yield(); }, [&] { Slots::Guard g3(s); });
    }
  }, 1);
}

CASE("default-scheduler") {
  size_t expect = static_cast<size_t>(atoi(getenv("PARLAY_NUM_THREADS") ? getenv("PARLAY_NUM_THREADS") : "0"));
  if (!expect) expect = std::thread::hardware_concurrency();
  VF_CHECK(num_workers() == expect, "default:count", "num_workers()=%zu but PARLAY_NUM_THREADS asks for %zu", num_workers(), expect);
  VF_CHECK(worker_id() < num_workers(), "default:id", "id %zu of the main thread", worker_id());
  size_t mine = worker_id();
  uint64_t spread = 0;
  for (size_t it = 0, R = rounds(400, 8); it < R; it++) {
    Slots s(expect); work(s, 200 + rng.below(300), rng.next(), it & 1); s.verify("default scheduler");
    spread = std::max(spread, s.used());
    uint64_t h = 0; for (auto& x : s.hits) h = H(h, x.load()); eval(h); event("loops"); if (s.used() > 1) event("loops_on_several_workers");
    VF_CHECK(worker_id() == mine, "default:id", "the caller's id changed to %zu", worker_id());
  }
  sample("worker count %zu, up to %llu ids used in one loop", expect, static_cast<unsigned long long>(spread));
}

CASE("explicit-scheduler") {
  for (size_t it = 0, R = rounds(150, 8); it < R; it++) {
    unsigned p = static_cast<unsigned>(1 + rng.below(12));
    size_t before_p = num_workers(), before_id = worker_id();
    auto* before_s = parlay::internal::scheduler_type::get_current_scheduler();
    bool ran = false; Slots s(p); uint64_t sd = rng.next();
    parlay::execute_with_scheduler(p, [&] {
      ran = true;
      VF_CHECK(worker_id() == 0, "explicit:root-id", "the creator of a scheduler has id %zu in it", worker_id());
      work(s, 100 + rng.below(100), sd, true);
    });
    VF_CHECK(ran, "explicit:run", "the function was not run");
    s.verify("explicit scheduler");
    VF_CHECK(num_workers() == before_p && worker_id() == before_id && parlay::internal::scheduler_type::get_current_scheduler() == before_s, "explicit:restore",
             "after a scheduler of %u: %zu workers (was %zu), id %zu (was %zu)", p, num_workers(), before_p, worker_id(), before_id);
    uint64_t h = p; for (auto& x : s.hits) h = H(h, x.load()); eval(h); event("explicit_schedulers");
    sample("p=%u ids used %llu", p, static_cast<unsigned long long>(s.used()));
  }
}

// schedulers created inside one another, from the root and from inside running tasks of the outer one
static void nest(Rng& r, int depth, size_t outer_p, std::atomic<uint64_t>& made) {
  unsigned p = static_cast<unsigned>(1 + r.below(5));
  size_t id0 = worker_id(); auto* s0 = parlay::internal::scheduler_type::get_current_scheduler();
  Slots s(p); uint64_t sd = r.next(); made++;
  parlay::execute_with_scheduler(p, [&] {
    work(s, 40, sd, false);
    if (depth > 0) {
      Rng r2(mix(sd));
      if (r2.chance(1, 2)) nest(r2, depth - 1, p, made);
      else {
        // from several tasks at once
        parlay::parallel_for(0, 3, [&](size_t i) {
          Slots::Guard g(s);
          Rng r3(mix(sd + i)); nest(r3, depth - 1, p, made);
          if (num_workers() != p) s.bad_p++;
        }, 1);
      }
    }
    work(s, 40, sd + 1, true);
    s.verify("nested scheduler");
  });
  VF_CHECK(num_workers() == outer_p && worker_id() == id0 && parlay::internal::scheduler_type::get_current_scheduler() == s0, "nested:restore", "after a nested scheduler the worker count is %zu (was %zu) and the id %zu (was %zu)", num_workers(), outer_p, worker_id(), id0);
}
CASE("nested-schedulers") {
  (void)num_workers();
  for (size_t it = 0, R = rounds(25, 8); it < R; it++) {
    std::atomic<uint64_t> made{0}; Rng r(rng.next());
    nest(r, 3, num_workers(), made);
    event("nested_schedulers", made); eval(H(it, made.load(), r.s));
    sample("%llu schedulers in one nest", static_cast<unsigned long long>(made.load()));
  }
}

// a scheduler used from inside the loops of another, repeatedly and concurrently
CASE("schedulers-in-tasks") {
  for (size_t it = 0, R = rounds(15, 8); it < R; it++) {
    size_t P = num_workers(); Slots out(P); std::atomic<uint64_t> bad{0}; uint64_t sd = rng.next();
    parlay::parallel_for(0, 12, [&](size_t i) {
      Slots::Guard g(out); size_t id = worker_id();
      unsigned p = static_cast<unsigned>(1 + mix(sd + i) % 4); Slots in(p);
      parlay::execute_with_scheduler(p, [&] { work(in, 60, sd + i, true); });
      in.verify("scheduler inside a task");
      if (worker_id() != id || num_workers() != P) bad++;
    }, 1);
    out.verify("outer scheduler"); VF_CHECK(bad == 0, "intask:restore", "%llu tasks had another id or worker count after using a scheduler", static_cast<unsigned long long>(bad.load()));
    event("schedulers_in_tasks", 12); eval(H(sd));
    sample("12 tasks of a %zu-worker loop each ran their own scheduler", P);
  }
}

// several application threads at once, each with its default scheduler and with explicit ones
CASE("application-threads") {
  size_t expect = num_workers();
  for (size_t it = 0, R = rounds(20, 8); it < R; it++) {
    int T = static_cast<int>(2 + rng.below(4)); std::vector<std::thread> th; uint64_t sd = rng.next(); std::atomic<uint64_t> ok{0};
    std::vector<parlay::internal::scheduler_type*> sch(static_cast<size_t>(T)); SpinBarrier bar(T);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
      Slots s(expect); work(s, 80, sd + static_cast<uint64_t>(t), true); s.verify("default scheduler of an application thread");
      sch[static_cast<size_t>(t)] = parlay::internal::scheduler_type::get_current_scheduler();
      unsigned p = static_cast<unsigned>(1 + mix(sd + static_cast<uint64_t>(t)) % 4); Slots e(p);
      parlay::execute_with_scheduler(p, [&] { work(e, 60, sd, true); }); e.verify("explicit scheduler of an application thread");
      Slots s2(expect); work(s2, 60, sd, false); s2.verify("default scheduler after an explicit one"); ok++;
      bar.wait();   // all alive: the schedulers must be different objects
    });
    for (auto& x : th) x.join();
    std::set<void*> d(sch.begin(), sch.end()); d.erase(nullptr);
    VF_CHECK(d.size() == static_cast<size_t>(T), "appthreads:isolation", "%d threads shared %zu schedulers", T, d.size());
    VF_CHECK(ok == static_cast<uint64_t>(T), "appthreads:done", "%llu of %d threads finished", static_cast<unsigned long long>(ok.load()), T);
    event("application_threads", static_cast<uint64_t>(T)); eval(H(sd, T));
    sample("%d application threads", T);
  }
}

// threads that run explicit schedulers before they ever use their default one
[[gnu::noinline]] static void scribble() { volatile char junk[60000]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = static_cast<char>(0x5a + i); }
CASE("explicit-before-default") {
  size_t expect = num_workers();
  for (size_t it = 0, R = rounds(25, 8); it < R; it++) {
    int T = static_cast<int>(1 + rng.below(3)); std::vector<std::thread> th; uint64_t sd = rng.next(); std::atomic<uint64_t> ok{0};
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
      using S = parlay::internal::scheduler_type;
      VF_CHECK(S::get_current_scheduler() == nullptr, "fresh:has-scheduler", "a new thread already belongs to a scheduler");
      int k = static_cast<int>(1 + mix(sd + 7) % 3);
      for (int j = 0; j < k; j++) {
        unsigned p = static_cast<unsigned>(1 + mix(sd + static_cast<uint64_t>(t * 10 + j)) % 5); Slots e(p);
        parlay::execute_with_scheduler(p, [&] {
          VF_CHECK(S::get_current_scheduler() != nullptr && num_workers() == p, "fresh:inside", "explicit scheduler of %u workers not in force", p);
          work(e, 60, sd, true);
          if (j % 2) { Slots in(2); parlay::execute_with_scheduler(2, [&] { work(in, 30, sd + 1, true); }); in.verify("nested scheduler of a fresh thread");
            VF_CHECK(num_workers() == p, "fresh:outer-restored", "%zu workers instead of %u", num_workers(), p); }
        });
        e.verify("explicit scheduler of a fresh thread");
        VF_CHECK(S::get_current_scheduler() == nullptr, "fresh:not-restored", "the thread still belongs to a scheduler after it ended");
        scribble();
      }
      if (S::get_current_scheduler() == nullptr) { Slots d(expect); work(d, 60, sd, false); d.verify("default scheduler after explicit ones"); }
      ok++;
    });
    for (auto& x : th) x.join();
    VF_CHECK(ok == static_cast<uint64_t>(T), "fresh:done", "%llu of %d threads finished", static_cast<unsigned long long>(ok.load()), T);
    event("fresh_threads", static_cast<uint64_t>(T)); eval(H(sd, T));
    sample("%d threads with explicit schedulers first", T);
  }
}

// per-worker storage follows the scheduler it was created in
CASE("worker-specific-per-scheduler") {
  for (size_t it = 0, R = rounds(60, 8); it < R; it++) {
    unsigned p = static_cast<unsigned>(1 + rng.below(9)); uint64_t n = 500; uint64_t total = 0, elems = 0;
    parlay::execute_with_scheduler(p, [&] {
      parlay::WorkerSpecific<uint64_t> c;
      parlay::parallel_for(0, n, [&](size_t i) { *c += i; }, 1);
      c.for_each([&](uint64_t& x) { total += x; elems++; });
    });
    VF_CHECK(elems == p, "ws:size", "%llu elements for %u workers", static_cast<unsigned long long>(elems), p);
    VF_CHECK(total == n * (n - 1) / 2, "ws:sum", "per-worker counters sum to %llu", static_cast<unsigned long long>(total));
    eval(H(p, it)); sample("p=%u", p);
  }
}
