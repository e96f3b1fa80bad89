// P06: thread ids, ThreadSpecific, WorkerSpecific.
#include "gen.h"
#include <parlay/thread_specific.h>
#include <parlay/worker_specific.h>
#include <parlay/primitives.h>

using namespace vf;

static std::atomic<uint32_t> g_owner[1 << 16];   // id -> token of the live thread that has it
static std::atomic<uint64_t> g_shared{0}, g_range{0}, g_changed{0}, g_claims{0};

// Destroyed at thread exit before the thread gives its id back (it is constructed later).
struct Release { uint32_t id; uint32_t tok; ~Release() { uint32_t t = g_owner[id].exchange(0); if (t != tok) g_shared++; } };
static uint32_t claim() {
  uint32_t id = parlay::my_thread_id();
  static std::atomic<uint32_t> toks{1};
  static thread_local uint32_t tok = toks.fetch_add(1);
  static thread_local bool mine = false;
  if (!mine) {
    mine = true;
    if (id >= parlay::num_thread_ids()) g_range++;
    uint32_t e = 0;
    if (!g_owner[id].compare_exchange_strong(e, tok)) g_shared++;
    static thread_local Release rel{id, tok}; (void)rel;
    g_claims++;
  } else if (g_owner[id].load() != tok) g_changed++;
  return id;
}
static void verify_ids(const char* what) {
  if (g_shared) fail("id:shared", "%s: %llu times two live threads had one id", what, static_cast<unsigned long long>(g_shared.exchange(0)));
  if (g_range) fail("id:range", "%s: an id was not below num_thread_ids()", what);
  if (g_changed) fail("id:changed", "%s: the id of a thread changed", what);
}

// Waves of threads: all alive together, then all gone. Ids never exceed the peak of live threads.
CASE("waves") {
  claim();
  size_t base = parlay::num_thread_ids();     // ids already needed by this process
  size_t peak = 0;
  for (size_t it = 0, R = rounds(60, 8); it < R; it++) {
    size_t T = rng.chance(1, 6) ? 1 + rng.below(60) : 1 + rng.below(12);
    peak = std::max(peak, T);
    std::vector<std::thread> th; SpinBarrier b(static_cast<int>(T)); std::mutex m; std::set<uint32_t> ids;
    bool together = rng.chance(2, 3); std::vector<uint32_t> v;
    for (size_t t = 0; t < T; t++) th.emplace_back([&] {
      if (together) b.wait();
      uint32_t id = claim();
      for (int k = 0; k < 3; k++) { claim(); }
      { std::lock_guard<std::mutex> g(m); v.push_back(id); }
      if (together) b.wait();       // everybody is still alive here
    });
    for (auto& x : th) x.join();
    if (together) {
      std::set<uint32_t> s(v.begin(), v.end());
      VF_CHECK(s.size() == T, "id:duplicate", "%zu threads alive together had %zu different ids", T, s.size());
    }
    verify_ids("waves");
    VF_CHECK(parlay::num_thread_ids() <= base + peak, "id:growth", "%u ids in use after at most %zu simultaneous threads", parlay::num_thread_ids(), base + peak);
    uint64_t h = T; std::sort(v.begin(), v.end()); for (auto x : v) h = H(h, x); eval(H(h, it), T > 1);
    event("threads", T);
  }
  sample("at most %zu threads at once, %u ids handed out", peak, parlay::num_thread_ids());
}

// Threads that start while others exit
CASE("churn") {
  claim();
  size_t width = 12; std::atomic<int64_t> live{0}, peak{0};
  size_t base = parlay::num_thread_ids();
  std::atomic<uint64_t> started{0}; std::vector<std::thread> drivers;
  size_t per = rounds(150, 8);
  // `live` over-approximates: raised before a thread is created, lowered after it was joined
  for (size_t d = 0; d < width; d++) drivers.emplace_back([&, d] {
    Rng r(mix(seed() * 77 + d));
    for (size_t k = 0; k < per; k++) {
      int64_t l = ++live; int64_t p = peak; while (l > p && !peak.compare_exchange_weak(p, l)) {}
      std::thread([&] { claim(); started++; if (r.chance(1, 4)) spin_ns(r.below(20000)); claim(); }).join();
      --live;
    }
  });
  for (auto& x : drivers) x.join();
  verify_ids("churn");
  VF_CHECK(parlay::num_thread_ids() <= base + static_cast<size_t>(peak.load()), "id:growth", "%u ids after at most %lld simultaneous threads (had %zu before)", parlay::num_thread_ids(), static_cast<long long>(peak.load()), base);
  event("threads", started); event("id_reuses", started.load() > parlay::num_thread_ids() ? started.load() - parlay::num_thread_ids() : 0);
  eval(H(started.load(), 9)); sample("%llu short threads, up to %lld at once, %u ids", static_cast<unsigned long long>(started.load()), static_cast<long long>(peak.load()), parlay::num_thread_ids());
}

// A thread that ends leaves its id for the next one: what it wrote under that id is visible to the next holder
CASE("hand-over") {
  static uint64_t cell[1 << 12];     // plain, indexed by thread id
  std::vector<std::thread> ds; std::atomic<uint64_t> n{0};
  for (int d = 0; d < 6; d++) ds.emplace_back([&] {
    for (size_t k = 0, R = rounds(150, 8); k < R; k++) { std::thread t([&] { uint32_t id = claim(); cell[id & 4095]++; n++; }); t.join(); }
  });
  for (auto& x : ds) x.join();
  uint64_t s = 0; for (auto c : cell) s += c;
  VF_CHECK(s == n.load(), "id:handover", "%llu increments under exclusive ids, %llu arrived", static_cast<unsigned long long>(n.load()), static_cast<unsigned long long>(s));
  for (auto& c : cell) c = 0;
  verify_ids("hand-over"); event("hand_overs", n); eval(H(n.load(), 4)); sample("%llu threads incremented a plain cell of their id", static_cast<unsigned long long>(n.load()));
}

struct Elem {
  uint64_t magic = 0xE1E3; uint64_t id = ~0ull; std::atomic<uint64_t> uses{0}; std::atomic<uint32_t> inuse{0};
  Elem() = default; explicit Elem(uint64_t i) : id(i) {}
  Elem(Elem&& o) : magic(o.magic), id(o.id) {}
};

// First accesses of many threads at once to fresh storage, with ids beyond its first chunks
CASE("thread-specific") {
  for (size_t it = 0, R = rounds(40, 8); it < R; it++) {
    size_t T = rng.chance(1, 3) ? 20 + rng.below(60) : 2 + rng.below(14);
    std::map<uint64_t, int> made; std::mutex mm; std::atomic<uint64_t> bad_magic{0}, bad_id{0}, shared{0}, moved{0};
    {
      parlay::ThreadSpecific<Elem> ts([&](size_t i) { { std::lock_guard<std::mutex> g(mm); made[i]++; } if (mix(i + it) % 4 == 0) spin_ns(3000); return Elem(i); });
      std::vector<std::thread> th; SpinBarrier b(static_cast<int>(T)); std::vector<Elem*> addr(T);
      for (size_t t = 0; t < T; t++) th.emplace_back([&, t] {
        uint32_t id = claim(); b.wait();
        Elem& e = *ts;
        if (e.inuse.exchange(1) != 0) shared++;
        if (e.magic != 0xE1E3) bad_magic++;
        if (e.id != id) bad_id++;
        for (int k = 0; k < 20; k++) { if (&ts.get() != &e || ts.operator->() != &e) moved++; e.uses++; }
        const auto& cts = ts; if (&*cts != &e) moved++;
        addr[t] = &e; b.wait(); e.inuse.exchange(0);
      });
      for (auto& x : th) x.join();
      std::set<Elem*> d(addr.begin(), addr.end());
      VF_CHECK(d.size() == T && shared == 0, "ts:shared", "%zu threads got %zu elements", T, d.size());
      VF_CHECK(bad_magic == 0 && bad_id == 0, "ts:init", "elements not initialised before use (%llu), or for another id (%llu)", static_cast<unsigned long long>(bad_magic.load()), static_cast<unsigned long long>(bad_id.load()));
      VF_CHECK(moved == 0, "ts:moved", "a thread's element changed %llu times", static_cast<unsigned long long>(moved.load()));
      // iteration: every element of every id exactly once, in both ways, and random access agrees
      size_t n = parlay::num_thread_ids(); std::vector<Elem*> by_each, by_it; uint64_t uses = 0;
      ts.for_each([&](Elem& e) { by_each.push_back(&e); uses += e.uses; });
      for (auto& e : ts) by_it.push_back(&e);
      VF_CHECK(by_each.size() == n && by_it == by_each, "ts:iterate", "for_each visited %zu, iteration %zu of %zu elements", by_each.size(), by_it.size(), n);
      VF_CHECK(std::set<Elem*>(by_it.begin(), by_it.end()).size() == n, "ts:iterate-dup", "an element was visited twice");
      for (size_t i = 0; i < by_it.size(); i++) VF_CHECK(by_it[i]->id == i, "ts:order", "element %zu was made for id %llu", i, static_cast<unsigned long long>(by_it[i]->id));
      VF_CHECK(uses == 20 * T, "ts:kept", "%llu of %zu uses remembered", static_cast<unsigned long long>(uses), 20 * T);
      auto bgn = ts.begin(), en = ts.end();
      VF_CHECK(static_cast<size_t>(en - bgn) == n && bgn - en == -static_cast<std::ptrdiff_t>(n), "ts:difference", "end-begin=%td for %zu elements", en - bgn, n);
      for (int k = 0; k < 60; k++) {
        size_t i = rng.below(n), j = rng.below(n + 1);
        auto a = bgn + static_cast<std::ptrdiff_t>(i); auto c = bgn + static_cast<std::ptrdiff_t>(j);
        VF_CHECK(&*a == by_it[i] && &bgn[i] == by_it[i], "ts:index", "begin+%zu is not element %zu", i, i);
        VF_CHECK(c - a == static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), "ts:difference", "difference of positions %zu and %zu is %td", j, i, c - a);
        VF_CHECK((a < c) == (i < j) && (a <= c) == (i <= j) && (a > c) == (i > j) && (a >= c) == (i >= j) && (a == c) == (i == j) && (a != c) == (i != j), "ts:compare", "positions %zu, %zu compare wrongly", i, j);
        auto e2 = c; e2 -= static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i); VF_CHECK(e2 == a, "ts:minus", "%zu - %td is not %zu", j, static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i), i);
        auto f = en; for (size_t q = n; q > i; q--) { if (q & 1) --f; else f--; } VF_CHECK(f == a, "ts:decrement", "stepping back from the end to %zu", i);
        if (i + 1 < n) { auto g2 = a; VF_CHECK(&*g2++ == by_it[i] && &*g2 == by_it[i + 1], "ts:increment", "stepping from %zu", i); }
      }
      // in parallel through the range interface
      auto ids = parlay::map(ts, [](const Elem& e) { return e.id; });
      VF_CHECK(ids.size() == n, "ts:range", "as a range it has %zu of %zu elements", ids.size(), n);
      event("ts_elements", n);
    }
    {  // storages nobody has used yet, walked in one way each: the elements of every id appear as they are reached
      using TS = parlay::ThreadSpecific<uint64_t>; size_t n = parlay::num_thread_ids(); auto mk = [](size_t i) { return i * 3 + 1; };
      auto bad = [&](const char* how, size_t i, uint64_t got) { fail(std::string("ts:fresh:") + how, "element %zu of %zu of an unused storage reads %llu", i, n, static_cast<unsigned long long>(got)); };
      { TS a(mk); auto i = a.begin(); for (size_t k = 0; k < n; k++, ++i) if (*i != mk(k)) { bad("++", k, *i); break; } }
      { TS a(mk); auto i = a.begin(); for (size_t k = 0; k < n; k++) { auto j = i++; if (*j != mk(k)) { bad("post++", k, *j); break; } } }
      { TS a(mk); auto i = a.end(); for (size_t k = n; k-- > 0;) if (*--i != mk(k)) { bad("--", k, *i); break; } }
      { TS a(mk); size_t k = rng.below(n); auto i = a.begin(); i += static_cast<std::ptrdiff_t>(k); if (*i != mk(k)) bad("+=", k, *i); }
      { TS a(mk); auto i = a.end(); i -= static_cast<std::ptrdiff_t>(1); if (*i != mk(n - 1)) bad("-=", n - 1, *i); }
      { TS a(mk); size_t k = rng.below(n); if (a.begin()[k] != mk(k)) bad("[]", k, a.begin()[k]); }
      { TS a(mk); size_t k = 0; a.for_each([&](uint64_t& x) { if (x != mk(k)) bad("for_each", k, x); k++; }); if (k != n) bad("for_each-count", k, 0); }
      { TS a(mk); const TS& c = a; size_t k = 0; for (const auto& x : c) { if (x != mk(k)) bad("const", k, x); k++; } if (k != n) bad("const-count", k, 0); }
      { TS a(mk); auto v = parlay::map(a, [](uint64_t x) { return x; }); for (size_t k = 0; k < n; k++) if (v[k] != mk(k)) { bad("range", k, v[k]); break; } }
      event("unused_storages", 9);
    }
    for (auto& [i, c] : made) if (c != 1) { fail("ts:init-twice", "the element of id %llu was initialised %d times", static_cast<unsigned long long>(i), c); break; }
    verify_ids("thread-specific");
    eval(H(T, made.size(), it)); event("ts_histories");
    sample("%zu threads touch fresh storage together; %zu elements made", T, made.size());
  }
}

// many storages raced one after the other by the same set of live threads, growing id counts
CASE("thread-specific-race") {
  size_t T = 24; size_t K = rounds(400, 8);
  struct Slot { std::unique_ptr<parlay::ThreadSpecific<std::unique_ptr<uint64_t>>> ts; };
  std::vector<Slot> slots(K); std::atomic<uint64_t> inits{0};
  for (auto& s : slots) s.ts.reset(new parlay::ThreadSpecific<std::unique_ptr<uint64_t>>([&] { inits++; return std::make_unique<uint64_t>(7); }));
  SpinBarrier b(static_cast<int>(T)); std::vector<std::thread> th; std::atomic<uint64_t> bad{0};
  for (size_t t = 0; t < T; t++) th.emplace_back([&] {
    claim();
    for (size_t k = 0; k < K; k++) { b.wait(); auto& u = **slots[k].ts; if (!u || *u != 7) bad++; else *u = 1000 + parlay::my_thread_id(); b.wait(); if (!u || *u != 1000 + parlay::my_thread_id()) bad++; }
  });
  for (auto& x : th) x.join();
  VF_CHECK(bad == 0, "ts:race", "%llu accesses saw an uninitialised or foreign element", static_cast<unsigned long long>(bad.load()));
  for (auto& s : slots) { size_t n = 0; s.ts->for_each([&](auto&) { n++; }); VF_CHECK(n == parlay::num_thread_ids(), "ts:iterate", "visited %zu of %u", n, parlay::num_thread_ids()); }
  event("ts_first_touch_races", K); eval(H(K, T)); sample("%zu storages, first touched by %zu threads at once", K, T);
}

// lifetimes of the elements: made once, destroyed with the storage
CASE("thread-specific-lifetimes") {
  for (size_t it = 0, R = rounds(20, 8); it < R; it++) {
    auto& lm = LifeMon::get(); uint64_t c0 = lm.ctor, d0 = lm.dtor;
    {
      parlay::ThreadSpecific<TrackedCopy> a; parlay::ThreadSpecific<TrackedMove> b([](size_t i) { return TrackedMove(static_cast<int64_t>(i)); });
      std::vector<std::thread> th; size_t T = 1 + rng.below(40);
      for (size_t t = 0; t < T; t++) th.emplace_back([&] { claim(); a->v++; if (b->get() < 0) fail("ts:life", "bad value"); });
      for (auto& x : th) x.join();
    }
    lm.expect_none("destroying thread-specific storage");
    event("lifetimes", lm.ctor - c0); VF_CHECK(lm.ctor - c0 == lm.dtor - d0, "ts:life-balance", "%llu constructed, %llu destroyed", static_cast<unsigned long long>(lm.ctor - c0), static_cast<unsigned long long>(lm.dtor - d0));
    eval(H(it, lm.ctor - c0));
  }
  sample("storages of copyable and move-only tracked objects");
}

CASE("worker-specific") {
  for (size_t it = 0, R = rounds(60, 8); it < R; it++) {
    size_t P = parlay::num_workers(); std::map<size_t, int> made; std::mutex mm;
    parlay::WorkerSpecific<Elem> ws([&](size_t i) { std::lock_guard<std::mutex> g(mm); made[i]++; return Elem(i); });
    VF_CHECK(made.size() == P, "wsp:init", "%zu elements made for %zu workers", made.size(), P);
    for (auto& [i, c] : made) VF_CHECK(c == 1 && i < P, "wsp:init-twice", "element %zu made %d times", i, c);
    std::atomic<uint64_t> bad{0}, shared{0}; size_t n = 500;
    parlay::parallel_for(0, n, [&](size_t i) {
      Elem& e = *ws; if (e.inuse.exchange(1)) shared++;
      if (e.magic != 0xE1E3 || e.id != parlay::worker_id()) bad++;
      if (i % 16 == 0) spin_ns(800);
      e.uses++; e.inuse.exchange(0);
    }, 1);
    uint64_t uses = 0; std::vector<Elem*> v, w; ws.for_each([&](Elem& e) { uses += e.uses; v.push_back(&e); }); for (auto& e : ws) w.push_back(&e);
    VF_CHECK(shared == 0, "wsp:shared", "two tasks used one worker's element at the same time");
    VF_CHECK(bad == 0, "wsp:own", "%llu accesses got an element that is not the worker's own", static_cast<unsigned long long>(bad.load()));
    VF_CHECK(uses == n && v.size() == P && v == w && static_cast<size_t>(ws.end() - ws.begin()) == P, "wsp:iterate", "%llu uses over %zu elements", static_cast<unsigned long long>(uses), v.size());
    const auto& cws = ws; VF_CHECK(&*cws == &*ws && static_cast<size_t>(cws.end() - cws.begin()) == P, "wsp:const", "constant access differs");
    uint64_t h = P; for (auto* e : v) h = H(h, e->uses.load()); eval(h); event("worker_elements", P);
    sample("%zu workers, %zu uses", P, n);
  }
  parlay::WorkerSpecific<std::atomic<int>> at([] { return 0; }); parlay::WorkerSpecific<int> z;
  parlay::parallel_for(0, 1000, [&](size_t) { (*at)++; (*z)++; });
  int s = 0, s2 = 0; at.for_each([&](auto& x) { s += x; }); z.for_each([&](int& x) { s2 += x; });
  VF_CHECK(s == 1000 && s2 == 1000, "wsp:sum", "counters sum to %d, %d", s, s2);
}
