// P02: the work-stealing queue hands each task to exactly one taker.
#include "gen.h"
#include <parlay/parallel.h>
#include <parlay/internal/work_stealing_deque.h>

using namespace vf;

struct Task { uint64_t seq = 0; uint64_t payload = 0; std::atomic<uint32_t> taken{0}; };
using Q = parlay::internal::Deque<Task>;

// one thread: exact model, including uncontended steals
CASE("sequential-model") {
  for (size_t it = 0, R = rounds(300, 8); it < R; it++) {
    Q q; std::vector<Task> ts(2000); size_t next = 0; std::vector<size_t> model; uint64_t h = 0; size_t maxdepth = 0;
    size_t bias = 1 + rng.below(9);
    for (size_t op = 0; op < 2000; op++) {
      bool room = model.size() < 900 && next < ts.size();
      // after steals the queue's slots are not reused until the owner finds it empty, so bound the total too
      static thread_local size_t since_reset; if (op == 0) since_reset = 0;
      uint64_t c = rng.below(10);
      if (c < bias && room && since_reset < 990) {
        bool was_empty = model.empty();
        bool first = q.push_bottom(&ts[next]); model.push_back(next); next++; since_reset++;
        if (first && !was_empty) fail("seq:push-first", "push reported the queue empty while it held %zu tasks", model.size() - 1);
        h = H(h, 1, first);
      } else if (c % 2 == 0) {
        Task* t = q.pop_bottom();
        if (model.empty()) { if (t) fail("seq:pop-ghost", "pop from an empty queue returned a task"); since_reset = 0; }
        else {
          if (!t) fail("seq:pop-lost", "pop reported empty with %zu tasks in the queue", model.size());
          else if (t != &ts[model.back()]) fail("seq:pop-order", "owner got task %td instead of the newest %zu", t - ts.data(), model.back());
          model.pop_back();
          if (model.empty()) since_reset = 0; else since_reset--;
        }
        h = H(h, 2, t ? t - ts.data() : 0);
      } else {
        auto [t, empty] = q.pop_top();
        if (model.empty()) { if (t || !empty) fail("seq:steal-ghost", "steal from an empty queue gave task %p empty=%d", static_cast<void*>(t), empty); }
        else {
          if (!t) fail("seq:steal-lost", "uncontended steal found nothing with %zu tasks in the queue", model.size());
          else if (t != &ts[model.front()]) fail("seq:steal-order", "thief got task %td instead of the oldest %zu", t - ts.data(), model.front());
          if (empty != (model.size() == 1)) fail("seq:steal-empty-flag", "empty=%d with %zu tasks left after the steal", empty, model.size() - 1);
          model.erase(model.begin());
        }
        h = H(h, 3, t ? t - ts.data() : 0);
      }
      maxdepth = std::max(maxdepth, model.size());
    }
    event("model_ops", 2000);
    eval(h);
    sample("2000 operations, deepest %zu", maxdepth);
  }
}

struct Steal { uint64_t seq; uint64_t t0, t1; };
static inline uint64_t tick() {
  return static_cast<uint64_t>(std::chrono::steady_clock::now().time_since_epoch().count());
}

static void contended(Rng& rng, int thieves, size_t bursts, int style) {
  Q q;
  std::atomic<int> phase{0};           // bursts started
  std::atomic<int> idle{0};
  std::atomic<bool> stop{false};
  std::atomic<int> paused{0}, want_pause{0};
  std::vector<std::vector<Steal>> log(static_cast<size_t>(thieves));
  std::vector<std::thread> th;
  constexpr size_t MAXT = 900;
  std::vector<Task> ts(MAXT);
  std::atomic<uint64_t> ghost{0}, badpay{0}, dup{0}, contention{0};
  for (int t = 0; t < thieves; t++) th.emplace_back([&, t] {
    auto& lg = log[static_cast<size_t>(t)];
    Rng r(mix(seed() + static_cast<uint64_t>(t)));
    while (!stop.load(std::memory_order_acquire)) {
      if (want_pause.load(std::memory_order_acquire)) {
        paused.fetch_add(1);
        while (want_pause.load(std::memory_order_acquire) && !stop) std::this_thread::yield();
        paused.fetch_sub(1);
      }
      uint64_t t0 = tick();
      auto [job, empty] = q.pop_top();
      uint64_t t1 = tick();
      if (job) {
        if (job < ts.data() || job >= ts.data() + MAXT) { ghost++; continue; }
        uint64_t s = job->seq, p = job->payload;    // plain reads: must see the owner's writes
        if (p != mix(s)) badpay++;
        if (job->taken.fetch_add(1) != 0) dup++;
        lg.push_back({s, t0, t1});
      } else if (!empty) contention++;
      if (r.chance(1, 50)) std::this_thread::yield();
    }
  });
  uint64_t gseq = 0, owner_took = 0, stolen = 0, h = 0;
  for (size_t b = 0; b < bursts; b++) {
    // pause the thieves to reuse the task objects, now and then; otherwise use fresh ones
    want_pause = 1;
    while (paused.load() < thieves) std::this_thread::yield();
    for (auto& l : log) l.clear();
    for (auto& t : ts) t.taken.store(0, std::memory_order_relaxed);
    // wait until everybody left the pause before the next pause can begin
    want_pause = 0;
    while (paused.load() > 0) std::this_thread::yield();
    std::vector<Task*> model; size_t pushed = 0; uint64_t first_seq = gseq;
    std::vector<std::pair<uint64_t, uint64_t>> owner_pops;  // seq, time
    size_t target = style == 0 ? 1 + rng.below(4) : style == 1 ? 1 + rng.below(60) : 1 + rng.below(MAXT);
    auto pop = [&] {
      Task* t = q.pop_bottom();
      if (t) {
        if (t < ts.data() || t >= ts.data() + MAXT) { ghost++; return; }
        if (t->taken.fetch_add(1) != 0) dup++;
        owner_took++;
        if (model.empty() || t != model.back()) fail("mt:pop-order", "owner popped task %llu, its newest is %llu", static_cast<unsigned long long>(t->seq), model.empty() ? 0ull : static_cast<unsigned long long>(model.back()->seq));
        else model.pop_back();
      } else model.clear();   // reported empty: every remaining task must have been stolen (checked below)
      h = H(h, t ? t->seq : 0);
    };
    while (pushed < target) {
      size_t k = 1 + rng.below(style == 0 ? 2 : 12);
      for (size_t i = 0; i < k && pushed < target; i++, pushed++) {
        ts[pushed].seq = gseq; ts[pushed].payload = mix(gseq); gseq++;
        q.push_bottom(&ts[pushed]); model.push_back(&ts[pushed]);
      }
      size_t m = rng.below(style == 2 ? 6 : 14);
      for (size_t i = 0; i < m; i++) pop();
      if (rng.chance(1, 20)) std::this_thread::yield();
    }
    while (!model.empty()) pop();
    Task* t = q.pop_bottom();
    if (t) fail("mt:ghost", "the queue was reported empty but then held a task");
    // let thieves in the middle of a steal record what they took
    want_pause = 1;
    while (paused.load() < thieves) std::this_thread::yield();
    for (size_t i = 0; i < pushed; i++) {
      uint32_t c = ts[i].taken.load();
      if (c != 1) { fail(c == 0 ? "mt:lost" : "mt:dup", "task %zu of %zu was taken %u times", i, pushed, c); break; }
    }
    // thieves take the oldest: the steals of one thief have increasing numbers, and a steal that
    // ended before another began has the smaller number
    std::vector<Steal> all;
    for (auto& l : log) {
      for (size_t i = 1; i < l.size(); i++) if (l[i].seq <= l[i - 1].seq) { fail("mt:steal-order", "a thief got task %llu after task %llu", static_cast<unsigned long long>(l[i].seq), static_cast<unsigned long long>(l[i - 1].seq)); break; }
      for (auto& s : l) { if (s.seq < first_seq) { fail("mt:stale", "a thief got an old task"); break; } all.push_back(s); }
    }
    std::sort(all.begin(), all.end(), [](const Steal& a, const Steal& b2) { return a.seq < b2.seq; });
    uint64_t latest_start = 0;   // over smaller numbers
    for (auto& s : all) { if (s.t1 < latest_start) { fail("mt:steal-realtime", "task %llu was stolen entirely before an older one", static_cast<unsigned long long>(s.seq)); break; } latest_start = std::max(latest_start, s.t0); h = H(h, s.seq - first_seq); }
    stolen += all.size();
    want_pause = 0;
    while (paused.load() > 0) std::this_thread::yield();
    eval(h, !all.empty());
  }
  stop = true; want_pause = 0;
  for (auto& x : th) x.join();
  if (ghost) fail("mt:ghost", "%llu pointers that were never pushed were returned", static_cast<unsigned long long>(ghost.load()));
  if (badpay) fail("mt:payload", "%llu tasks were seen by a thief without what the owner had written to them", static_cast<unsigned long long>(badpay.load()));
  if (dup) fail("mt:dup", "%llu tasks were taken twice", static_cast<unsigned long long>(dup.load()));
  event("tasks_pushed", gseq); event("tasks_stolen", stolen); event("tasks_popped_by_owner", owner_took); event("lost_steal_races", contention.load());
  sample("%d thieves, %zu bursts: %llu pushed, %llu stolen, %llu popped", thieves, bursts, static_cast<unsigned long long>(gseq), static_cast<unsigned long long>(stolen), static_cast<unsigned long long>(owner_took));
}
CASE("last-task-races") { for (int t : {1, 2, 3, 6}) contended(rng, t, rounds(6000, 10), 0); }
CASE("short-bursts") { for (int t : {1, 3, 7}) contended(rng, t, rounds(2000, 10), 1); }
CASE("long-bursts") { for (int t : {1, 4}) contended(rng, t, rounds(500, 10), 2); }
